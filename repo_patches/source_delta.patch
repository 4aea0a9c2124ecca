From 2aacb9d901ae03ba0a04a140d36f64ded1ed5d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:43 +0000
Subject: [PATCH 01/55] fix: IndexCollection construction from tuples or one
 value, first add of a numpy scalar

---
 alipy/index/index_collections.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 016192f..4bf0ff3 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -63,7 +63,7 @@ class IndexCollection(BaseCollection):
     """
 
     def __init__(self, data=None):
-        if data is None or len(data) == 0:
+        if data is None or (hasattr(data, '__len__') and len(data) == 0):
             self._innercontainer = []
         else:
             if isinstance(data, IndexCollection):
@@ -72,7 +72,11 @@ class IndexCollection(BaseCollection):
                 return
             if not isinstance(data, (list, np.ndarray)):
                 data = [data]
-            self._innercontainer = list(np.unique([i for i in data], axis=0))
+            if isinstance(data[0], tuple):
+                # np.unique would turn the tuples into arrays
+                self._innercontainer = list(dict.fromkeys(data))
+            else:
+                self._innercontainer = list(np.unique([i for i in data], axis=0))
             if len(self._innercontainer) != len(data):
                 warnings.warn("There are %d same elements in the given data" % (len(data) - len(self._innercontainer)),
                               category=RepeatElementWarning,
@@ -126,12 +130,12 @@ class IndexCollection(BaseCollection):
         self: object
             return self.
         """
-        if self._element_type is None:
-            self._element_type = type(value)
         # check validation
         if isinstance(value, np.generic):
             # value = np.asscalar(value)  # deprecated in numpy v1.16
             value = value.item()
+        if self._element_type is None:
+            self._element_type = type(value)
         if not isinstance(value, self._element_type):
             raise TypeError(
                 "A %s parameter is expected, but received: %s" % (str(self._element_type), str(type(value))))
-- 
2.43.0


From 2371a439844245583914d60849bf2dd2a7063eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:43 +0000
Subject: [PATCH 02/55] fix: IndexCollection.difference_update with the
 container itself as argument

---
 alipy/index/index_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 4bf0ff3..fba5eb8 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -187,7 +187,7 @@ class IndexCollection(BaseCollection):
         """
         if not isinstance(other, (list, np.ndarray, IndexCollection)):
             other = [other]
-        for item in other:
+        for item in list(other):    # other may be this container itself
             self.discard(item)
         return self
 
-- 
2.43.0


From 718be73405d52e8ad2bdcee6f90d5205d348c368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 03/55] fix: MultiLabelIndexCollection add/discard of
 (instance, several labels) and negative labels

---
 alipy/index/index_collections.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index fba5eb8..32966ae 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -336,10 +336,11 @@ class MultiLabelIndexCollection(IndexCollection):
         elif len(value) == 2:
             if isinstance(value[1], collections.Iterable):
                 for item in value[1]:
-                    if item >= self._label_size:
+                    if not 0 <= item < self._label_size:
                         raise ValueError("Index %s is out of bound %s" % (str(item), str(self._label_size)))
+                return self.update([value])
             else:
-                if value[1] >= self._label_size:
+                if not 0 <= value[1] < self._label_size:
                     raise ValueError("Index %s is out of bound %s" % (str(value[1]), str(self._label_size)))
         else:
             raise ValueError("A tuple with 1 or 2 elements is expected, but received: %s" % str(value))
@@ -371,6 +372,8 @@ class MultiLabelIndexCollection(IndexCollection):
         if len(value) == 1:
             value = [(value[0], i) for i in range(self._label_size)]
             return self.difference_update(value)
+        if len(value) == 2 and isinstance(value[1], collections.Iterable):
+            return self.difference_update([value])
         if value not in self._innercontainer:
             warnings.warn("Element %s to discard is not in the collection, skip." % (value.__str__()),
                           category=InexistentElementWarning,
-- 
2.43.0


From 86419eef0b97b15164826b69b0c429be639adfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 04/55] fix: copy construction of MultiLabelIndexCollection and
 updates with an empty batch

---
 alipy/index/index_collections.py | 2 +-
 alipy/index/multi_label_tools.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 32966ae..592d35f 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -285,7 +285,7 @@ class MultiLabelIndexCollection(IndexCollection):
             self._label_size = label_size
         else:
             if isinstance(data, MultiLabelIndexCollection):
-                self._innercontainer = copy.deepcopy(data.index)
+                self._innercontainer = set(data.index)
                 self._label_size = data._label_size
                 return
             # check given indexes
diff --git a/alipy/index/multi_label_tools.py b/alipy/index/multi_label_tools.py
index 22fdb34..c2391ad 100644
--- a/alipy/index/multi_label_tools.py
+++ b/alipy/index/multi_label_tools.py
@@ -25,6 +25,8 @@ def check_index_multilabel(index):
         return index
     if not isinstance(index, (list, np.ndarray)):
         index = [index]
+    if len(index) == 0:
+        return index
     datatype = collections.Counter([type(i) for i in index])
     if len(datatype) != 1:
         raise TypeError("Different types found in the given indexes.")
-- 
2.43.0


From 5cb476691d56a7ee52717a7d31d1a7f964d03fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:42 +0000
Subject: [PATCH 05/55] fix: copy construction of an empty
 MultiLabelIndexCollection keeps its label_size

---
 alipy/index/index_collections.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 592d35f..2b77ed9 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -278,6 +278,8 @@ class MultiLabelIndexCollection(IndexCollection):
     def __init__(self, data=None, label_size=None):
         if data is None or len(data) == 0:
             self._innercontainer = set()
+            if label_size is None and isinstance(data, MultiLabelIndexCollection):
+                label_size = data._label_size
             if label_size is None:
                 warnings.warn("This collection does not have a label_size value, set it manually or "
                               "it will raise when decomposing indexes.",
-- 
2.43.0


From 64646f6a4ae00088a8cbc4be88da69f5a8b53c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:27 +0000
Subject: [PATCH 06/55] fix: construct_by_1d_array with current numpy, for no
 entries and for FeatureIndexCollection

---
 alipy/index/index_collections.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 2b77ed9..5c47378 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -583,8 +583,10 @@ class MultiLabelIndexCollection(IndexCollection):
         row major: [4, 11, 5]
         """
         assert len(label_mat_shape) == 2
-        row, col = np.unravel_index(array, dims=label_mat_shape, order=order)
-        return cls(data=[(row[i], col[i]) for i in range(len(row))], label_size=label_mat_shape[1])
+        if len(array) == 0:
+            return cls([], label_mat_shape[1])
+        row, col = np.unravel_index(array, label_mat_shape, order=order)
+        return cls([(row[i], col[i]) for i in range(len(row))], label_mat_shape[1])
 
     @classmethod
     def construct_by_element_mask(cls, mask):
@@ -621,7 +623,7 @@ class MultiLabelIndexCollection(IndexCollection):
                              "element is known, and will be added to the MultiLabelIndexCollection container.")
 
         nz_row, nz_col = np.nonzero(mask)
-        return cls(data=[(nz_row[i], nz_col[i]) for i in range(len(nz_row))], label_size=mask.shape[1])
+        return cls([(nz_row[i], nz_col[i]) for i in range(len(nz_row))], mask.shape[1])
 
 
 class FeatureIndexCollection(MultiLabelIndexCollection):
-- 
2.43.0


From dea8ddd82c2dc6c26847df853236f8693fe72d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:27 +0000
Subject: [PATCH 07/55] fix: construct_by_element_mask accepts masks with all
 or no entries known

---
 alipy/index/index_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 5c47378..ba77b21 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -617,7 +617,7 @@ class MultiLabelIndexCollection(IndexCollection):
         """
         mask = np.asarray(mask)
         ue = np.unique(mask)
-        if not (len(mask.shape) == 2 and len(ue) == 2 and 0 in ue and 1 in ue):
+        if not (len(mask.shape) == 2 and set(ue) <= {0, 1}):
             raise ValueError("The mask matrix should be a 2d array, and there must be only "
                              "1 and 0 in the matrix, in which, 1 means the corresponding "
                              "element is known, and will be added to the MultiLabelIndexCollection container.")
-- 
2.43.0


From a0b3485cdbc245dbdf7f615bf6a1402221e2e9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:27 +0000
Subject: [PATCH 08/55] fix: get_matrix_mask fills the sparse mask

---
 alipy/index/index_collections.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index ba77b21..7e43bcc 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -11,6 +11,7 @@ import collections
 import copy
 
 import numpy as np
+from scipy.sparse import lil_matrix
 
 from .multi_label_tools import check_index_multilabel, infer_label_size_multilabel, flattern_multilabel_index, \
     integrate_multilabel_index
@@ -529,14 +530,16 @@ class MultiLabelIndexCollection(IndexCollection):
         """
         assert isinstance(mat_shape, tuple)
         if sparse:
-            try:
-                exec("from scipy.sparse import " + sparse_format)
-            except:
+            if sparse_format not in ('bsr_matrix', 'coo_matrix', 'csc_matrix', 'csr_matrix',
+                                     'dia_matrix', 'dok_matrix', 'lil_matrix'):
                 raise ValueError(
                     "sparse format " + sparse_format + "is not defined. Valid format should be one of "
                                                        "[bsr_matrix, coo_matrix, csc_matrix, csr_matrix, "
                                                        "dia_matrix, dok_matrix, lil_matrix].")
-            mask = eval(sparse_format + '(mat_shape)')
+            mask = lil_matrix(mat_shape)
+            for item in self._innercontainer:
+                mask[item] = fill_value
+            mask = mask.asformat(sparse_format[:3])
         else:
             if fill_value == 1 or fill_value == True:
                 mask = np.zeros(mat_shape, dtype=bool)
-- 
2.43.0


From 57a447df5dad6ed018092b3d052d7789fa553100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:27 +0000
Subject: [PATCH 09/55] fix: map_whole_index_to_train for list indexes, keep
 the label size

---
 alipy/index/index_collections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 7e43bcc..c80a706 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -711,6 +711,7 @@ def map_whole_index_to_train(train_idx, index_in_whole):
     else:
         raise TypeError("index_in_whole must be one of {IndexCollection, MultiLabelIndexCollection} type.")
 
+    train_idx = np.asarray([i for i in train_idx])
     tr_ob = []
     for entry in index_in_whole:
         if ind_type == 2:
@@ -721,6 +722,6 @@ def map_whole_index_to_train(train_idx, index_in_whole):
             assert entry in train_idx
             tr_ob.append(np.argwhere(train_idx == entry)[0][0])
     if ind_type == 2:
-        return MultiLabelIndexCollection(tr_ob)
+        return MultiLabelIndexCollection(tr_ob, label_size=index_in_whole._label_size)
     else:
         return IndexCollection(tr_ob)
-- 
2.43.0


From 230c56bc44717e5a9427db0b9a2484cdae3df3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:00 +0000
Subject: [PATCH 10/55] fix: StateIO.pop() default, totals after pop and
 recover_workspace

---
 alipy/experiment/state_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index cba4882..a7d3a47 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -219,7 +219,9 @@ class StateIO:
 
     def pop(self, i=None):
         """remove and return item at index (default last)."""
-        return self.__state_list.pop(i)
+        state = self.__state_list.pop(-1 if i is None else i)
+        self.refresh_info()
+        return state
 
     def recover_workspace(self, iteration=None):
         """Recover workspace after $iteration$ querying.
@@ -256,6 +258,7 @@ class StateIO:
             work_U.difference_update(state.get_value('select_index'))
             work_L.update(state.get_value('select_index'))
         self.__state_list = self.__state_list[0:iteration]
+        self.refresh_info()
         return copy.copy(self.train_idx), copy.copy(self.test_idx), copy.deepcopy(work_L), copy.deepcopy(work_U)
 
     def get_workspace(self, iteration=None):
-- 
2.43.0


From 7fa25ceda8893e420b02dfc5beaa553e2254db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:00 +0000
Subject: [PATCH 11/55] fix: StateIO.add_state with a dict

---
 alipy/experiment/state_io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index a7d3a47..afbb7ae 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -174,6 +174,11 @@ class StateIO:
         if not isinstance(state, State):
             assert isinstance(state, dict), "state must be dict or State object."
             assert 'select_index' in state and 'queried_info' in state and 'performance' in state, "The dict must contain the following keys: ['select_index', 'queried_info', 'performance']"
+            entries = state
+            state = State(select_index=entries['select_index'], performance=entries['performance'])
+            for key in entries:
+                if key not in ('select_index', 'performance'):
+                    state.add_element(key, entries[key])
         self.__state_list.append(copy.deepcopy(state))
         self.__update_info()
 
-- 
2.43.0


From ec94c4288014c5476b11c8a9f393e313f457f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 12/55] fix: StateIO infers one label size for the initial
 labeled and unlabeled pairs

---
 alipy/experiment/state_io.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index afbb7ae..fab56ad 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -25,7 +25,7 @@ import prettytable as pt
 
 from .state import State
 from ..index import IndexCollection, MultiLabelIndexCollection
-from ..index.multi_label_tools import check_index_multilabel
+from ..index.multi_label_tools import check_index_multilabel, infer_label_size_multilabel
 from ..utils.interface import BaseCollection
 
 __all__ = ['StateIO',
@@ -101,8 +101,11 @@ class StateIO:
             try:
                 check_index_multilabel(init_L)
                 check_index_multilabel(init_U)
-                self.init_U = copy.deepcopy(MultiLabelIndexCollection(init_U))
-                self.init_L = copy.deepcopy(MultiLabelIndexCollection(init_L))
+                if len(init_L) == 0 and len(init_U) == 0:
+                    raise TypeError("No index given.")
+                label_size = infer_label_size_multilabel(list(init_L) + list(init_U))
+                self.init_U = copy.deepcopy(MultiLabelIndexCollection(init_U, label_size))
+                self.init_L = copy.deepcopy(MultiLabelIndexCollection(init_L, label_size))
             except TypeError:
                 self.init_U = copy.deepcopy(IndexCollection(init_U))
                 self.init_L = copy.deepcopy(IndexCollection(init_L))
-- 
2.43.0


From a87bbd2bb8015175ffb34873d208a37e9cdfbfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:17 +0000
Subject: [PATCH 13/55] fix: saving replaces the previous file in one step

---
 alipy/experiment/state_io.py |  5 ++---
 alipy/oracle/oracle.py       |  9 +++------
 alipy/toolbox.py             |  7 +++----
 alipy/utils/misc.py          | 29 +++++++++++++++++++++++++++++
 alipy/utils/multi_thread.py  |  7 +++----
 5 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index fab56ad..8e2800a 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -27,6 +27,7 @@ from .state import State
 from ..index import IndexCollection, MultiLabelIndexCollection
 from ..index.multi_label_tools import check_index_multilabel, infer_label_size_multilabel
 from ..utils.interface import BaseCollection
+from ..utils.misc import dump_to_file
 
 __all__ = ['StateIO',
            ]
@@ -161,9 +162,7 @@ class StateIO:
         """Saving intermediate results to file."""
         if self._saving_dir is None:
             return
-        f = open(os.path.join(self._saving_dir, self._saving_file_name), 'wb')
-        pickle.dump(self, f)
-        f.close()
+        dump_to_file(self, os.path.join(self._saving_dir, self._saving_file_name))
 
     def add_state(self, state):
         """Add a State object to the container.
diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index b0c8d6c..e176d48 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -17,7 +17,7 @@ from sklearn.utils.validation import check_array
 from ..utils import interface
 from ..index.multi_label_tools import check_index_multilabel
 from ..utils.ace_warnings import *
-from ..utils.misc import check_one_to_one_correspondence, unpack
+from ..utils.misc import check_one_to_one_correspondence, dump_to_file, unpack
 
 __all__ = ['Oracle',
            'OracleQueryInstance',
@@ -269,14 +269,11 @@ class Oracle(interface.BaseVirtualOracle):
         else:
             if not isinstance(saving_path, str):
                 raise TypeError("A string is expected, but received: %s" % str(type(saving_path)))
-        import pickle
         saving_path = os.path.abspath(saving_path)
         if os.path.isdir(saving_path):
-            f = open(os.path.join(saving_path, 'oracle.pkl'), 'wb')
+            dump_to_file(self, os.path.join(saving_path, 'oracle.pkl'))
         else:
-            f = open(os.path.abspath(saving_path), 'wb')
-        pickle.dump(self, f)
-        f.close()
+            dump_to_file(self, os.path.abspath(saving_path))
 
     @classmethod
     def load_oracle(cls, path):
diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index c54012b..0ccfba6 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -18,6 +18,7 @@ from .metrics import performance
 from .oracle.knowledge_repository import MatrixRepository, ElementRepository
 from .oracle.oracle import OracleQueryMultiLabel, Oracle, OracleQueryFeatures
 from .query_strategy import check_query_type
+from .utils.misc import dump_to_file
 from .utils.multi_thread import aceThreading
 
 class ToolBox:
@@ -536,11 +537,9 @@ class ToolBox:
             return
         saving_path = os.path.abspath(self._saving_path)
         if os.path.isdir(saving_path):
-            f = open(os.path.join(saving_path, 'al_settings.pkl'), 'wb')
+            dump_to_file(self, os.path.join(saving_path, 'al_settings.pkl'))
         else:
-            f = open(os.path.abspath(saving_path), 'wb')
-        pickle.dump(self, f)
-        f.close()
+            dump_to_file(self, os.path.abspath(saving_path))
 
     def IndexCollection(self, array=None):
         """Return an IndexCollection object initialized with array."""
diff --git a/alipy/utils/misc.py b/alipy/utils/misc.py
index 52da0ef..2da4422 100644
--- a/alipy/utils/misc.py
+++ b/alipy/utils/misc.py
@@ -4,6 +4,9 @@ Misc functions to be settled
 
 from __future__ import division
 
+import os
+import pickle
+
 import numpy as np
 from sklearn.metrics.pairwise import linear_kernel, polynomial_kernel, \
     rbf_kernel
@@ -18,6 +21,7 @@ __all__ = ['check_matrix',
            'calc_kernel_matrix',
            'check_one_to_one_correspondence',
            'unpack',
+           'dump_to_file',
            ]
 
 def check_matrix(matrix):
@@ -259,3 +263,28 @@ def unpack(*args):
             ret_args.append(arg)
     return tuple(ret_args)
 
+
+def dump_to_file(obj, path):
+    """Pickle an object to a file, replacing the file in one step.
+
+    The previous content stays in place until the new one is complete, so an
+    interrupted or failed saving never damages it.
+
+    Parameters
+    ----------
+    obj: object
+        The object to save.
+
+    path: str
+        Path of the file.
+    """
+    path = os.path.realpath(path)
+    tmp_path = path + '.tmp'
+    try:
+        with open(tmp_path, 'wb') as f:
+            pickle.dump(obj, f)
+        os.replace(tmp_path, path)
+    except BaseException:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+        raise
diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index fd52558..9a616d8 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -11,6 +11,7 @@ from ..experiment import StateIO
 from ..index import IndexCollection, MultiLabelIndexCollection
 from ..index.multi_label_tools import check_index_multilabel
 from ..utils.interface import BaseCollection
+from ..utils.misc import dump_to_file
 
 __all__ = ['aceThreading',
            ]
@@ -291,11 +292,9 @@ class aceThreading:
         if self._saving_path is None:
             return
         if os.path.isdir(self._saving_path):
-            f = open(os.path.join(self._saving_path, 'multi_thread_state.pkl'), 'wb')
+            dump_to_file(self, os.path.join(self._saving_path, 'multi_thread_state.pkl'))
         else:
-            f = open(self._saving_path, 'wb')
-        pickle.dump(self, f)
-        f.close()
+            dump_to_file(self, self._saving_path)
 
     @classmethod
     def recover(cls, path):
-- 
2.43.0


From 9dd749b753eca54aa3ff3f141da448fb696c38eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:17 +0000
Subject: [PATCH 14/55] fix: aceThreading.save before the threads are started

---
 alipy/utils/multi_thread.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index 9a616d8..9967ff0 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -74,6 +74,7 @@ class aceThreading:
         self._refresh_interval = refresh_interval
         self._saving_path = os.path.abspath(saving_path)
         self._recover_arr = None
+        self._global_parameters = None
 
         # the path to store results of each thread.
         tp_path = os.path.join(self._saving_path, 'AL_result')
-- 
2.43.0


From b482fd1a119fcac275406c3d6e953bbd3895dcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:52 +0000
Subject: [PATCH 15/55] fix: the thread limit of aceThreading counts its own
 threads only

---
 alipy/utils/multi_thread.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index 9967ff0..ba9cbc7 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -204,10 +204,10 @@ class aceThreading:
                 while True:
                     if self._if_refresh():
                         print(self)
-                        # The active_count seems also include the main thread
-                        # print(threading.active_count())
-                    if threading.active_count() - 1 < self.__max_thread:
-                        available_thread += self.__max_thread - threading.active_count() + 1
+                    # only the threads of this object count, the program may have other ones.
+                    running_thread = sum([t.is_alive() for t in self.__threads])
+                    if running_thread < self.__max_thread:
+                        available_thread += self.__max_thread - running_thread
                         break
                 # run the if code
                 self.__threads[i].start()
-- 
2.43.0


From 59ac3b3759fdbfe88da6424917edce339079fffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:52 +0000
Subject: [PATCH 16/55] fix: recovery of aceThreading from any point of an
 interrupted run

Whether a round is finished, running or not started is saved before its thread
starts, kept by a recovered object, and files of earlier runs are not taken for results.
---
 alipy/utils/multi_thread.py | 78 +++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 37 deletions(-)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index ba9cbc7..575ab17 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -116,6 +116,7 @@ class aceThreading:
         self._thread_time_elapse = [-1] * self._round_num
         # for recovering the workspace
         self.__alive_thread = [False] * self._round_num
+        self.__finished_thread = [False] * self._round_num
 
         self._target_func = None
         if target_func is not None:
@@ -169,15 +170,16 @@ class aceThreading:
     def __init_threads(self, global_parameters=None):
         if global_parameters is not None:
             assert (isinstance(global_parameters, dict))
-        self._global_parameters = global_parameters
+            self._global_parameters = global_parameters
 
         # init thread objects
+        self.__threads = []
         for i in range(self._round_num):
             t = threading.Thread(target=self._target_func, name=str(i), kwargs={
                 'round': i, 'train_id': self._train_idx[i], 'test_id': self._test_idx[i],
                 'Ucollection': self._saver[i].get_workspace()[3], 'Lcollection': self._saver[i].get_workspace()[2],
                 'saver': self._saver[i], 'examples': self._examples, 'labels': self._labels,
-                'global_parameters': global_parameters})
+                'global_parameters': self._global_parameters})
             self.__threads.append(t)
 
     def __start_all_threads(self):
@@ -185,20 +187,16 @@ class aceThreading:
             self._recover_arr = [True] * self._round_num
         else:
             assert (len(self._recover_arr) == self._round_num)
+        # from now on, the state file describes this run
+        self.save()
         # start thread
         available_thread = self.__max_thread
         for i in range(self._round_num):
             if not self._recover_arr[i]:
                 continue
             if available_thread > 0:
-                self.__threads[i].start()
-                self._thread_time_elapse[i] = time.time()
-                self.__alive_thread[i] = True
+                self.__start_one_thread(i)
                 available_thread -= 1
-
-                # saving
-                self._update_thread_state()
-                self.save()
             else:
                 # waiting current thread
                 while True:
@@ -210,15 +208,9 @@ class aceThreading:
                         available_thread += self.__max_thread - running_thread
                         break
                 # run the if code
-                self.__threads[i].start()
-                self._thread_time_elapse[i] = time.time()
-                self.__alive_thread[i] = True
+                self.__start_one_thread(i)
                 available_thread -= 1
 
-                # saving
-                self._update_thread_state()
-                self.save()
-
         # waiting for other threads.
         for i in range(self._round_num):
             if not self._recover_arr[i]:
@@ -230,6 +222,17 @@ class aceThreading:
             self.save()
         print(self)
 
+    def __start_one_thread(self, i):
+        # The state is saved before the thread starts: whatever this thread will save
+        # must not be taken for the result of an earlier run, or for a finished round.
+        self._saver[i].save()
+        self._update_thread_state()
+        self.__alive_thread[i] = True
+        self.__finished_thread[i] = False
+        self.save()
+        self._thread_time_elapse[i] = time.time()
+        self.__threads[i].start()
+
     def __repr__(self):
         tb = pt.PrettyTable()
         tb.field_names = ['round', 'number_of_queries', 'time_elapse', 'performance (mean ± std)']
@@ -256,10 +259,11 @@ class aceThreading:
 
     def _update_thread_state(self):
         for i in range(len(self.__threads)):
-            if self.__threads[i].is_alive():
-                self.__alive_thread[i] = True
-            else:
-                self.__alive_thread[i] = False
+            if self.__threads[i].ident is None:
+                # not started by this object
+                continue
+            self.__alive_thread[i] = self.__threads[i].is_alive()
+            self.__finished_thread[i] = not self.__alive_thread[i]
 
     def __getstate__(self):
         pickle_seq = (
@@ -276,7 +280,8 @@ class aceThreading:
             self._target_func,
             self._global_parameters,
             self.__alive_thread,
-            self._saver
+            self._saver,
+            self.__finished_thread
         )
         return pickle_seq
 
@@ -284,7 +289,8 @@ class aceThreading:
         self._examples, self._labels, self._train_idx, self._test_idx, \
         self._label_index, self._unlabel_index, self._refresh_interval, \
         self._saving_path, self._round_num, self.__max_thread, \
-        self._target_func, self._global_parameters, self.__alive_thread, self._saver = state
+        self._target_func, self._global_parameters, self.__alive_thread, self._saver, \
+        self.__finished_thread = state
 
     def save(self):
         """
@@ -327,22 +333,20 @@ class aceThreading:
         recover_arr = [True] * breakpoint._round_num
         for i in range(breakpoint._round_num):
             file_dir = os.path.join(state_path, breakpoint._saver[i]._saving_file_name)
-            if not breakpoint.__alive_thread[i]:
-                if os.path.exists(file_dir) and os.path.getsize(file_dir) != 0:
-                    # all finished
-                    recover_thread._saver[i] = StateIO.load(
-                        os.path.join(state_path, breakpoint._saver[i]._saving_file_name))
-                    recover_arr[i] = False
-                else:
-                    # not started
-                    pass
-            else:
-                if os.path.getsize(file_dir) == 0:
-                    # not saving, but started, use the initialized stateIO object
-                    continue
+            if not (os.path.exists(file_dir) and os.path.getsize(file_dir) != 0):
+                # nothing is saved, use the initialized stateIO object
+                continue
+            if breakpoint.__finished_thread[i]:
+                # all finished
+                recover_thread._saver[i] = StateIO.load(file_dir)
+                recover_thread.__finished_thread[i] = True
+                recover_arr[i] = False
+            elif breakpoint.__alive_thread[i]:
                 # still running
                 # load intermediate result file
-                recover_thread._saver[i] = StateIO.load(
-                    os.path.join(state_path, breakpoint._saver[i]._saving_file_name))
+                recover_thread._saver[i] = StateIO.load(file_dir)
+                recover_thread.__alive_thread[i] = True
+            # otherwise not started, the file is not a result of this experiment
         recover_thread._recover_arr = recover_arr
+        recover_thread._global_parameters = breakpoint._global_parameters
         return recover_thread
-- 
2.43.0


From bc777547fdb4c5c06d4939aff332b4806876640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:06 +0000
Subject: [PATCH 17/55] fix: percent_of_unlabel with an empty initial unlabeled
 pool

---
 alipy/experiment/stopping_criteria.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/experiment/stopping_criteria.py b/alipy/experiment/stopping_criteria.py
index c691489..c0e1562 100644
--- a/alipy/experiment/stopping_criteria.py
+++ b/alipy/experiment/stopping_criteria.py
@@ -124,7 +124,8 @@ class StoppingCriteria:
         elif self._stopping_criteria == 'cost_limit':
             self._accum_cost = saver.cost_inall
         elif self._stopping_criteria == 'percent_of_unlabel':
-            self._percent = (len(ini_Uindex)-len(Uindex))/len(ini_Uindex)
+            if len(ini_Uindex) > 0:
+                self._percent = (len(ini_Uindex)-len(Uindex))/len(ini_Uindex)
         return self
 
     def reset(self):
-- 
2.43.0


From 4998a2cdcf65ddb1ba7592c893916f9207361124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:06 +0000
Subject: [PATCH 18/55] fix: AlExperiment uses the performance_metric
 parameter, start_query again starts new results

---
 alipy/experiment/al_experiment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index cce5c52..f8358a2 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -98,6 +98,8 @@ class AlExperiment:
         self._X, self._y = check_X_y(X, y, accept_sparse='csc', multi_output=True)
         self._model = model
         self._experiment_result = []
+        self._train_idx = None
+        self.set_performance_metric(performance_metric)
         # set split in the initial
         train_idx = kwargs.pop('train_idx', None)
         test_idx = kwargs.pop('test_idx', None)
@@ -350,6 +352,7 @@ class AlExperiment:
             check_flag = kwargs.pop('check_flag', True)
             verbose = kwargs.pop('verbose', True)
             print_interval = kwargs.pop('print_interval', 1)
+            self._experiment_result = []
             for round in range(self._split_count):
                 saver = StateIO(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
                                 self._unlabel_idx[round], initial_point, saving_path, check_flag, verbose,
-- 
2.43.0


From 7ac12de4ad771dd3ff9ba6c8c92ec9292ddfa159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:06 +0000
Subject: [PATCH 19/55] fix: saved parallel state of AlExperiment can be
 loaded, every fold starts with a fresh stopping criterion

---
 alipy/experiment/al_experiment.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index f8358a2..4b15af0 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -343,7 +343,7 @@ class AlExperiment:
             ace = aceThreading(self._X, self._y, self._train_idx, self._test_idx,
                                self._label_idx, self._unlabel_idx, max_thread=max_thread,
                                refresh_interval=refresh_interval, saving_path=saving_path)
-            ace.set_target_function(self.__al_main_loop)
+            ace.set_target_function(self._al_main_loop)
             ace.start_all_threads()
             self._experiment_result = ace.get_results()
         else:
@@ -357,11 +357,11 @@ class AlExperiment:
                 saver = StateIO(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
                                 self._unlabel_idx[round], initial_point, saving_path, check_flag, verbose,
                                 print_interval)
-                self.__al_main_loop(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
+                self._al_main_loop(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
                                     self._unlabel_idx[round], saver)
                 self._experiment_result.append(copy.deepcopy(saver))
 
-    def __al_main_loop(self, round, train_id, test_id, Lcollection, Ucollection,
+    def _al_main_loop(self, round, train_id, test_id, Lcollection, Ucollection,
                        saver, examples=None, labels=None, global_parameters=None):
         """
             The active-learning main loop.
@@ -387,7 +387,11 @@ class AlExperiment:
 
         # stopping-criterion 
         stopping_criterion = copy.deepcopy(self._stopping_criterion)
-        saver.set_initial_point(perf_result)
+        stopping_criterion.reset()
+        if len(saver) == 0:
+            # otherwise, a recovered fold is continued
+            saver.set_initial_point(perf_result)
+        stopping_criterion.update_information(saver)
 
         while not stopping_criterion.is_stop():
             if not self.__custom_strategy_flag:
-- 
2.43.0


From 7828d20472d7ddc1af9d4b0ff3be9070f583913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:06 +0000
Subject: [PATCH 20/55] fix: concurrent folds of AlExperiment do not share the
 model and the query strategy

---
 alipy/experiment/al_experiment.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index 4b15af0..7db27e1 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -368,8 +368,10 @@ class AlExperiment:
         """
         Lcollection = IndexCollection(Lcollection)
         Ucollection = IndexCollection(Ucollection)
-        self._model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
-        pred = self._model.predict(self._X[test_id, :])
+        # the folds may run at the same time, each one has its own model and query strategy
+        model = copy.deepcopy(self._model)
+        model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
+        pred = model.predict(self._X[test_id, :])
 
         # some query strategy,such as QueryInstanceGraphDensity,QueryInstanceQUIRE, need train_ind
         if self._query_function_need_train_ind:
@@ -381,6 +383,8 @@ class AlExperiment:
                         "The QueryInstanceGraphDensity need metric.Please input metric in set_query_strategy().")
             elif self._query_function_name == 'QueryInstanceQUIRE':
                 querfunction = QueryInstanceQUIRE(self._X, self._y, train_id, **self._query_function_kwargs)
+        else:
+            querfunction = copy.deepcopy(self._query_function)
 
         # performance calc
         perf_result = self._performance_metric(self._y[test_id], pred)
@@ -400,22 +404,22 @@ class AlExperiment:
                                                      **self._query_function_kwargs)
                 elif self._query_function_name == 'QueryInstanceQUIRE':
                     select_ind = querfunction.select(Lcollection, Ucollection, batch_size=self._batch_size)
-                elif 'model' in inspect.getfullargspec(self._query_function.select)[0]:
-                    select_ind = self._query_function.select(Lcollection, Ucollection, batch_size=self._batch_size,
-                                                             model=self._model)
+                elif 'model' in inspect.getfullargspec(querfunction.select)[0]:
+                    select_ind = querfunction.select(Lcollection, Ucollection, batch_size=self._batch_size,
+                                                             model=model)
                 elif self._query_function_name == 'QueryInstanceBMDR' or self._query_function_name == 'QueryInstanceSPAL':
-                    select_ind = self._query_function.select(Lcollection, Ucollection, batch_size=self._batch_size,
+                    select_ind = querfunction.select(Lcollection, Ucollection, batch_size=self._batch_size,
                                                              qp_solver=self.qp_solver)
                 else:
-                    select_ind = self._query_function.select(Lcollection, Ucollection, batch_size=self._batch_size)
+                    select_ind = querfunction.select(Lcollection, Ucollection, batch_size=self._batch_size)
             else:
-                select_ind = self._query_function.select(Lcollection, Ucollection, batch_size=self._batch_size,
+                select_ind = querfunction.select(Lcollection, Ucollection, batch_size=self._batch_size,
                                                          **self.__custom_func_arg)
             Lcollection.update(select_ind)
             Ucollection.difference_update(select_ind)
             # update model
-            self._model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
-            pred = self._model.predict(self._X[test_id, :])
+            model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
+            pred = model.predict(self._X[test_id, :])
 
             # performance calc
             perf_result = self._performance_metric(self._y[test_id], pred)
-- 
2.43.0


From cfc2bada39da5578739202e54946699cfb288fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:33 +0000
Subject: [PATCH 21/55] fix: graph density of small training sets and of
 isolated points

---
 alipy/query_strategy/query_labels.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 1876178..aabfee8 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -930,8 +930,8 @@ class QueryInstanceGraphDensity(BaseIndexQuery):
             self._compute_graph_density()
 
     def _compute_graph_density(self, n_neighbor=10):
-        # kneighbors graph is constructed using k=10
-        connect = kneighbors_graph(self.flat_X, n_neighbor, p=1)
+        # kneighbors graph is constructed using k=10, or with all the others if there are less.
+        connect = kneighbors_graph(self.flat_X, min(n_neighbor, self.flat_X.shape[0] - 1), p=1)
         # Make connectivity matrix symmetric, if a point is a k nearest neighbor of
         # another point, make it vice versa
         neighbors = connect.nonzero()
@@ -953,7 +953,8 @@ class QueryInstanceGraphDensity(BaseIndexQuery):
         # by total number of neighbors.
         self.graph_density = np.zeros(self.flat_X.shape[0])
         for i in np.arange(self.flat_X.shape[0]):
-            self.graph_density[i] = connect[i, :].sum() / (connect[i, :] > 0).sum()
+            # all weights of a far away point may be 0
+            self.graph_density[i] = connect[i, :].sum() / max((connect[i, :] > 0).sum(), 1)
         self.starting_density = copy.deepcopy(self.graph_density)
 
     def select(self, label_index, unlabel_index, batch_size=1, **kwargs):
-- 
2.43.0


From 70aa3b4a6d47d98c7b00721d6709cf6b14d544e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:07 +0000
Subject: [PATCH 22/55] fix: random selection from a list or array, entropy
 does not change the given prediction matrix

---
 alipy/query_strategy/query_labels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index aabfee8..032f24f 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -214,7 +214,7 @@ class QueryInstanceUncertainty(BaseIndexQuery):
 
         if self.measure == 'entropy':
             # calc entropy
-            pv[pv <= 0] = 1e-06  # avoid zero division
+            pv = np.where(pv <= 0, 1e-06, pv)  # avoid zero division
             entro = [-np.sum(vec * np.log(vec+1e-9)) for vec in pv]
             assert (len(np.shape(entro)) == 1)
             return unlabel_index[nlargestarg(entro, batch_size)]
@@ -289,7 +289,7 @@ class QueryRandom(BaseIndexQuery):
         if len(unlabel_index) <= batch_size:
             return np.array([i for i in unlabel_index])
         perm = randperm(len(unlabel_index) - 1, batch_size)
-        tpl = list(unlabel_index.index)
+        tpl = list(unlabel_index)
         return [tpl[i] for i in perm]
 
 
@@ -319,7 +319,7 @@ class QueryInstanceRandom(BaseIndexQuery):
         if len(unlabel_index) <= batch_size:
             return np.array([i for i in unlabel_index])
         perm = randperm(len(unlabel_index) - 1, batch_size)
-        tpl = list(unlabel_index.index)
+        tpl = list(unlabel_index)
         return [tpl[i] for i in perm]
 
 
-- 
2.43.0


From 2a4158351f8e4fa8f5de029ce623ca2dff8faf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:07 +0000
Subject: [PATCH 23/55] fix: expected error reduction with labels other than
 0..n-1 and with zero probabilities

---
 alipy/query_strategy/query_labels.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 032f24f..8d3fab6 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -647,7 +647,8 @@ class QueryExpectedErrorReduction(BaseIndexQuery):
         log_loss = 0.0
         for i in range(len(prob)):
             for p in list(prob[i]):
-                log_loss -= p * np.log(p)
+                if p > 0:  # the limit of p * log(p) is 0
+                    log_loss -= p * np.log(p)
         return log_loss
 
     def select(self, label_index, unlabel_index, model=None, batch_size=1):
@@ -693,8 +694,11 @@ class QueryExpectedErrorReduction(BaseIndexQuery):
         label_y = self.y[label_index]
         ##################################
 
-        classes = np.unique(self.y)
         pv, spv = _get_proba_pred(unlabel_x, model)
+        # the label of each column of the prediction
+        classes = getattr(model, 'classes_', None)
+        if classes is None or len(classes) != spv[1]:
+            classes = np.unique(self.y)
         scores = []
         for i in range(spv[0]):
             new_train_inds = np.append(label_index, unlabel_index[i])
@@ -703,11 +707,11 @@ class QueryExpectedErrorReduction(BaseIndexQuery):
             unlabel_ind.pop(i)
             new_unlabel_X = self.X[unlabel_ind, :]
             score = []
-            for yi in classes:
+            for col, yi in enumerate(classes):
                 new_model = copy.deepcopy(model)
                 new_model.fit(new_train_X, np.append(label_y, yi))
                 prob = new_model.predict_proba(new_unlabel_X)
-                score.append(pv[i, yi] * self.log_loss(prob))
+                score.append(pv[i, col] * self.log_loss(prob))
             scores.append(np.sum(score))
 
         return unlabel_index[nsmallestarg(scores, batch_size)]
-- 
2.43.0


From 346a9f65f64e8a8d94ceb55d8353eb460939008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:07 +0000
Subject: [PATCH 24/55] fix: QBC scores count the available committee members,
 accept uniform votes

---
 alipy/query_strategy/query_labels.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 8d3fab6..0a47fd2 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -495,8 +495,8 @@ class QueryInstanceQBC(BaseIndexQuery):
         uniques = np.unique(shapes, axis=0)
         if len(uniques) > 1:
             raise Exception("Found input variables with inconsistent numbers of"
-                            " shapes: %r" % [int(l) for l in shapes])
-        committee_size = len(predict_matrices)
+                            " shapes: %r" % shapes)
+        committee_size = len(shapes)
         if not committee_size > 1:
             raise ValueError("Two or more committees are expected, but received: %d" % committee_size)
         input_shape = uniques[0]
@@ -527,18 +527,18 @@ class QueryInstanceQBC(BaseIndexQuery):
         score = []
         input_shape, committee_size = cls()._check_committee_results(predict_matrices)
         if len(input_shape) == 2:
-            ele_uni = np.unique(predict_matrices)
-            if not (len(ele_uni) == 2 and 0 in ele_uni and 1 in ele_uni):
+            ele_uni = np.unique([X for X in predict_matrices if X is not None])
+            if not set(ele_uni) <= {0, 1}:
                 raise ValueError("The predicted label matrix must only contain 0 and 1")
             # calc each instance
             for i in range(input_shape[0]):
-                instance_mat = np.array([X[i, :] for X in predict_matrices if X is not None])
+                instance_mat = np.array([np.asarray(X)[i, :] for X in predict_matrices if X is not None])
                 voting = np.sum(instance_mat, axis=0)
                 tmp = 0
                 # calc each label
                 for vote in voting:
                     if vote != 0:
-                        tmp += vote / len(predict_matrices) * np.log((vote+1e-9) / len(predict_matrices))
+                        tmp += vote / committee_size * np.log((vote+1e-9) / committee_size)
                 score.append(-tmp)
         else:
             input_mat = np.array([X for X in predict_matrices if X is not None])
@@ -581,7 +581,7 @@ class QueryInstanceQBC(BaseIndexQuery):
             label_num = input_shape[1]
             # calc kl div for each instance
             for i in range(input_shape[0]):
-                instance_mat = np.array([X[i, :] for X in predict_matrices if X is not None])
+                instance_mat = np.array([np.asarray(X)[i, :] for X in predict_matrices if X is not None])
                 tmp = 0
                 # calc each label
                 for lab in range(label_num):
-- 
2.43.0


From 29ea1177edaf0074c68cc20d3a329c84397de230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:07 +0000
Subject: [PATCH 25/55] fix: QUIRE inverts the blocks of L as in the paper, the
 score is always defined

---
 alipy/query_strategy/query_labels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 0a47fd2..7edf135 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -851,7 +851,7 @@ class QueryInstanceQUIRE(BaseIndexQuery):
         det_Laa = np.linalg.det(L[np.ix_(Uindex, Uindex)])
         # efficient computation of inv(Laa)
         M3 = np.dot(self.K[np.ix_(Uindex, Lindex)],
-                    np.linalg.inv(self.lmbda * np.eye(len(Lindex))))
+                    np.linalg.inv(self.K[np.ix_(Lindex, Lindex)] + self.lmbda * np.eye(len(Lindex))))
         M2 = np.dot(M3, self.K[np.ix_(Lindex, Uindex)])
         M1 = self.lmbda * np.eye(len(Uindex)) + self.K[np.ix_(Uindex, Uindex)]
         inv_Laa = M1 - M2
@@ -866,7 +866,7 @@ class QueryInstanceQUIRE(BaseIndexQuery):
             iList_r = iList[:]
             iList_r.remove(i)
             inv_Luu = inv_Laa[np.ix_(iList_r, iList_r)] - 1 / inv_Laa[i, i] * \
-                                                          np.dot(inv_Laa[iList_r, i], inv_Laa[iList_r, i].T)
+                                                          np.outer(inv_Laa[iList_r, i], inv_Laa[iList_r, i])
             tmp = np.dot(
                 L[each_index][Lindex] -
                 np.dot(
-- 
2.43.0


From 12ecd576cc9cf9458bff771f35a4f768c284340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:07 +0000
Subject: [PATCH 26/55] fix: core-set selection measures from the given labeled
 set, accepts list train_idx and small pools

---
 alipy/query_strategy/query_labels.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 7edf135..44afe9a 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -1873,8 +1873,15 @@ class QueryInstanceCoresetGreedy(BaseIndexQuery):
         -------
           indices of points selected to minimize distance to cluster centers
         """
-        already_selected = [np.where(self.train_idx == id)[0].item() for id in label_index]
-        self.update_distances(already_selected, only_new=True, reset_dist=False)
+        unlabel_index = list(unlabel_index)
+        if len(unlabel_index) <= batch_size:
+            return unlabel_index
+        train_idx = list(self.train_idx)
+        already_selected = [train_idx.index(i) for i in label_index]
+        # the given label_index decides about the centers, not the previous calls
+        self.update_distances(already_selected, only_new=False, reset_dist=True)
+        if self.min_distances is None:
+            self.min_distances = np.full((self.n_obs, 1), np.inf)
 
         new_batch = []
         self.min_distances[already_selected] = -100.0
-- 
2.43.0


From 190b8d9e23aef90001846169ea2af5fb552bbebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:07 +0000
Subject: [PATCH 27/55] fix: density weighted selection accepts index
 containers and small pools, margin has the sign of an uncertainty

---
 alipy/query_strategy/query_labels.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 44afe9a..1e256bb 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -1932,6 +1932,10 @@ class QueryInstanceDensityWeighted(BaseIndexQuery):
         self.beta = beta
 
     def select(self, label_index, unlabel_index, batch_size=1, model=None, proba_prediction=None, **kwargs):
+        assert (batch_size > 0)
+        unlabel_index = np.asarray(unlabel_index)
+        if len(unlabel_index) <= batch_size:
+            return unlabel_index
         unlab_fea = self.X[unlabel_index]
         if model is None and proba_prediction is None:
             raise ValueError("must provide one of model and proba_prediction.")
@@ -1950,7 +1954,8 @@ class QueryInstanceDensityWeighted(BaseIndexQuery):
         elif self.uncertainty_meansure == 'margin':
             # calc margin
             pat = np.partition(pv, (spv[1] - 2, spv[1] - 1), axis=1)
-            pat = pat[:, spv[1] - 2] - pat[:, spv[1] - 1]
+            # should not be negative, since it is multiplied by the diversity
+            pat = 1 + pat[:, spv[1] - 2] - pat[:, spv[1] - 1]
             # return unlabel_index[nlargestarg(pat, batch_size)]
         elif self.uncertainty_meansure == 'least_confident':
             # calc least_confident
-- 
2.43.0


From e623238a2a28cb8c27ca1c91401119e7a4fabacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:17 +0000
Subject: [PATCH 28/55] fix: oracle lookups of unknown items, multi-label query
 by example, costs given as lists

---
 alipy/oracle/oracle.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index e176d48..862645d 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -86,7 +86,7 @@ class Oracle(interface.BaseVirtualOracle):
     @property
     def example_keys(self):
         if self._instance_flag:
-            return np.asarray(self._exa2ind.keys())
+            return np.asarray(list(self._exa2ind.keys()))
         else:
             return None
 
@@ -128,8 +128,6 @@ class Oracle(interface.BaseVirtualOracle):
             if example is None:
                 raise Exception("This oracle has the instance information,"
                                 "must provide example parameter when adding entry")
-            example = tuple(example)
-            self._exa2ind[example] = index
         if self._cost_flag:
             if cost is None:
                 raise Exception("This oracle has the cost information,"
@@ -137,6 +135,8 @@ class Oracle(interface.BaseVirtualOracle):
             self._ind2all[index] = (label, cost)
         else:
             self._ind2all[index] = label
+        if self._instance_flag:
+            self._exa2ind[tuple(example)] = index
 
     def add_knowledge(self, labels, indexes, examples=None, cost=None):
         """Adding entries to the oracle.
@@ -249,7 +249,7 @@ class Oracle(interface.BaseVirtualOracle):
         -------
 
         """
-        raise KeyError("%s is not in the " + dict_name + " of this oracle" % str(key))
+        raise KeyError("%s is not in the %s of this oracle" % (str(key), dict_name))
 
     def __repr__(self):
         return str(self._ind2all)
@@ -339,6 +339,7 @@ class OracleQueryMultiLabel(Oracle):
                 cost = np.tile(cost, (self._label_shape[0], 1))
             else:
                 self._fine_grained_cost = True
+                cost = np.asarray(cost)
         super(OracleQueryMultiLabel, self).__init__(labels, examples, indexes, cost)
 
     def _add_one_entry(self, label, index, example=None, cost=None):
@@ -374,8 +375,6 @@ class OracleQueryMultiLabel(Oracle):
             if example is None:
                 raise Exception("This oracle has the instance information,"
                                 "must provide example parameter when adding entry")
-            example = tuple(example)
-            self._exa2ind[example] = index
         if self._cost_flag:
             if cost is None:
                 if self._fine_grained_cost == False:
@@ -387,9 +386,11 @@ class OracleQueryMultiLabel(Oracle):
                 raise ValueError(
                     "Different dimension of cost found when adding entries: %s is expected but received: %s" %
                     (str(self._label_shape[1]), str(len(cost))))
-            self._ind2all[index] = (np.array(label), cost)
+            self._ind2all[index] = (np.array(label), np.array(cost))
         else:
             self._ind2all[index] = np.array(label)
+        if self._instance_flag:
+            self._exa2ind[tuple(example)] = index
 
     def query_by_index(self, indexes):
         """Query function in multi-label setting
@@ -442,7 +443,8 @@ class OracleQueryMultiLabel(Oracle):
                 label_ind = [i for i in range(self._label_shape[1])]
             else:
                 if isinstance(k[1], collections.Iterable):
-                    label_ind = [i for i in k[1] if 0 <= i < self._label_shape[1]]
+                    label_ind = list(k[1])
+                    assert all(0 <= i < self._label_shape[1] for i in label_ind)
                 else:
                     assert (0 <= k[1] < self._label_shape[1])
                     label_ind = [k[1]]
@@ -503,9 +505,9 @@ class OracleQueryMultiLabel(Oracle):
             # fetch data
             if example_fea in self._exa2ind.keys():
                 if k_len == 1:
-                    q_id.append((example_fea,))
+                    q_id.append((self._exa2ind[example_fea],))
                 else:
-                    q_id.append((example_fea, k[1]))
+                    q_id.append((self._exa2ind[example_fea], k[1]))
             else:
                 self._do_missing(example_fea, 'instance pool')
         return self.query_by_index(q_id)
-- 
2.43.0


From 17e0da175d1f4b2ad49fcf965c8b0e66bfac8163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:18 +0000
Subject: [PATCH 29/55] fix: books of Oracles for entries with several costs,
 weighted majority vote, names of listed oracles

---
 alipy/oracle/oracle.py                | 9 +++++----
 alipy/query_strategy/noisy_oracles.py | 9 ++++++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index 862645d..34a49e5 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -573,11 +573,11 @@ class Oracles:
             corresponding costs produced by query.
         """
         if oracle_name is None:
-            oracle_name = random.sample(self._oracle_dict.keys(), 1)[0]
+            oracle_name = random.sample(list(self._oracle_dict.keys()), 1)[0]
         result = self._oracle_dict[oracle_name].query_by_index(index_for_querying)
 
         self._update_query_history([oracle_name], [result], index_for_querying)
-        self.cost_inall += np.sum(np.asarray(result[1]).flatten())
+        self.cost_inall += np.sum([np.sum(c) for c in result[1]])
         return result
 
     def query_from_s(self, index_for_querying, oracles_name=None):
@@ -608,7 +608,7 @@ class Oracles:
             results.append(self._oracle_dict[name].query_by_index(index_for_querying))
 
         self._update_query_history(oracles_name, results, index_for_querying)
-        self.cost_inall += np.sum(np.array([result[1] for result in results]).flatten())
+        self.cost_inall += np.sum([np.sum(c) for result in results for c in result[1]])
         return results
 
     def get_oracle(self, oracle_name):
@@ -619,7 +619,8 @@ class Oracles:
 
     def _update_query_history(self, oracle_name, query_result, index_for_querying):
         """record the query history"""
-        self.query_history.append((oracle_name, query_result, index_for_querying))
+        # the caller may change its index container or lists later
+        self.query_history.append((list(oracle_name), copy.deepcopy(query_result), copy.deepcopy(index_for_querying)))
 
     def __repr__(self):
         """return summaries of each oracle.
diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index c36e220..26fc96a 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -80,10 +80,12 @@ def majority_vote(labels, weight=None):
         The label of the selected_instance, produced by majority voting
         of the selected oracles.
     """
-    oracle_weight = np.ones(len(labels)) if weight is None else weight
+    oracle_weight = [1] * len(labels) if weight is None else weight
     assert len(labels) == len(oracle_weight)
 
-    vote_result = collections.Counter(labels)
+    vote_result = collections.Counter()
+    for label, votes in zip(labels, oracle_weight):
+        vote_result[label] += votes
     most_votes = vote_result.most_common(n=1)
     return most_votes[0][1], most_votes[0][0]
 
@@ -125,7 +127,8 @@ def get_query_results(selected_instance, oracles, names=None):
             raise TypeError("The type of parameter oracles must be a list or alipy.oracle.Oracles object.")
         labeling_results = []
         if oracle_type == 'list':
-            for i in oracles.names() if oracle_type == 'oracles' else range(len(oracles)):
+            # the names of the oracles in a list are their positions
+            for i in names if names is not None else range(len(oracles)):
                 lab, co = oracles[i].query_by_index(selected_instance)
                 labeling_results.append(lab[0])
                 costs.append(np.sum(co))
-- 
2.43.0


From ed0d2a4baa6400c0e806611b8bb500f1569f3a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:23 +0000
Subject: [PATCH 30/55] fix: knowledge repositories: re-adding, clearing,
 rejected batches, shared examples, lookup of single and absent items

---
 alipy/oracle/knowledge_repository.py | 105 +++++++++++++++++----------
 1 file changed, 68 insertions(+), 37 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index 5e168ed..5f1cf37 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -117,17 +117,29 @@ class ElementRepository(BaseRepository):
                 raise Exception("This repository has the instance information,"
                                 "must provide example parameter when adding entry")
             example = tuple(example)
-            self._exa2ind[example] = select_index
-            self._ind2exa[select_index] = example
-
         if cost is not None:
             self.cost_inall += np.sum(cost)
             self._cost_arr.append(cost)
 
+        if self._instance_flag:
+            if select_index in self._ind2exa:
+                self._forget_example(select_index)
+            self._exa2ind[example] = select_index
+            self._ind2exa[select_index] = example
+        if select_index not in self._ind2label:
+            self._indexes.append(select_index)
         self._ind2label[select_index] = label
-        self._indexes.append(select_index)
         return self
 
+    def _forget_example(self, index):
+        """Remove the example of the given index. Another index may have the same example."""
+        example = self._ind2exa.pop(index)
+        if self._exa2ind[example] == index:
+            self._exa2ind.pop(example)
+            for ind, exa in self._ind2exa.items():
+                if exa == example:
+                    self._exa2ind[example] = ind
+
     def discard(self, index=None, example=None):
         """Discard element either by index or example.
 
@@ -152,7 +164,7 @@ class ElementRepository(BaseRepository):
             self._indexes.remove(index)
             self._ind2label.pop(index)
             if self._instance_flag:
-                self._exa2ind.pop(self._ind2exa.pop(index))
+                self._forget_example(index)
 
         if example is not None:
             if not self._instance_flag:
@@ -166,8 +178,7 @@ class ElementRepository(BaseRepository):
                     return self
                 ind = self._exa2ind[example]
                 self._indexes.remove(ind)
-                self._exa2ind.pop(example)
-                self._ind2exa.pop(ind)
+                self._forget_example(ind)
                 self._ind2label.pop(ind)
         return self
 
@@ -197,9 +208,16 @@ class ElementRepository(BaseRepository):
         if not isinstance(indexes, (list, np.ndarray, BaseCollection)):
             self.add(label=labels, select_index=indexes, cost=cost, example=examples)
         else:
-            for i in range(len(labels)):
-                self.add(label=labels[i], select_index=indexes[i], example=examples[i] if examples is not None else None,
-                         cost=cost[i] if cost is not None else None)
+            before = {name: copy.copy(value) for name, value in self.__dict__.items()}
+            try:
+                for i in range(len(labels)):
+                    self.add(label=labels[i], select_index=indexes[i],
+                             example=examples[i] if examples is not None else None,
+                             cost=cost[i] if cost is not None else None)
+            except Exception:
+                # do not keep a part of the batch
+                self.__dict__.update(before)
+                raise
         self.num_of_queries += 1
         self._update_query_history(labels, indexes, cost)
         return self
@@ -292,10 +310,10 @@ class ElementRepository(BaseRepository):
     def clear(self):
         """Clear this container."""
         self._indexes.clear()
-        self._exa2ind.clear()
         self._ind2label.clear()
-        self._indexes.clear()
-        self._instance_flag = False
+        if self._instance_flag:
+            self._exa2ind.clear()
+            self._ind2exa.clear()
         self.cost_inall = 0
         self._cost_arr = []
         self.num_of_queries = 0
@@ -303,7 +321,8 @@ class ElementRepository(BaseRepository):
 
     def _update_query_history(self, labels, indexes, cost):
         """record the query history"""
-        self._query_history.append(((labels, cost), indexes))
+        # the caller may change its index container or lists later
+        self._query_history.append(copy.deepcopy(((labels, cost), indexes)))
 
     def full_history(self):
         """Return full version of query history"""
@@ -384,22 +403,25 @@ class MatrixRepository(BaseRepository):
                           category=RepeatElementWarning)
             return self
         if self._y.ndim == 1:
-            if hasattr(label, '__len__'):
+            if np.ndim(label) != 0:
                 raise TypeError("The initialized label array only have 1 dimension, "
                                 "but received an array like label: %s." % str(label))
-            self._y = np.append(self._y, [label])
+            new_y = np.append(self._y, [label])
         else:
             # this operation will check the validity automatically.
-            self._y = np.append(self._y, [label], axis=0)
-        self._indexes = np.append(self._indexes, select_index)
-        self._cost_arr.append(cost)
-        self.cost_inall += np.sum(cost) if cost is not None else 0
+            new_y = np.append(self._y, [label], axis=0)
+        new_X = None
         if self._instance_flag:
             if example is None:
                 raise Exception("This repository has the instance information,"
                                 "must provide example parameter when adding entry")
             else:
-                self._X = np.append(self._X, [example], axis=0)
+                new_X = np.append(self._X, [example], axis=0)
+        self.cost_inall += np.sum(cost) if cost is not None else 0
+        self._cost_arr.append(cost)
+        self._indexes = np.append(self._indexes, select_index)
+        self._y = new_y
+        self._X = new_X
         return self
 
     def update_query(self, labels, indexes, cost=None, examples=None):
@@ -428,9 +450,15 @@ class MatrixRepository(BaseRepository):
         if not isinstance(indexes, (list, np.ndarray, BaseCollection)):
             self.add(label=labels, select_index=indexes, cost=cost, example=examples)
         else:
-            for i in range(len(indexes)):
-                self.add(label=labels[i], select_index=indexes[i], cost=cost[i] if cost is not None else None,
-                         example=examples[i] if examples is not None else None)
+            before = {name: copy.copy(value) for name, value in self.__dict__.items()}
+            try:
+                for i in range(len(indexes)):
+                    self.add(label=labels[i], select_index=indexes[i], cost=cost[i] if cost is not None else None,
+                             example=examples[i] if examples is not None else None)
+            except Exception:
+                # do not keep a part of the batch
+                self.__dict__.update(before)
+                raise
         self.num_of_queries += 1
         self._update_query_history(labels, indexes, cost)
         return self
@@ -495,14 +523,16 @@ class MatrixRepository(BaseRepository):
             The retrieved labels.
         """
         if not isinstance(indexes, (list, np.ndarray, BaseCollection)):
-            ind = np.argwhere(self._indexes == indexes)  # will return empty array if not found.
-            if not ind:
-                warnings.warn("Index %s for retrieving is not in the repository, skip." % str(indexes),
+            indexes = [indexes]
+        ind = []
+        for k in indexes:
+            pos = np.argwhere(self._indexes == k).flatten()  # will return empty array if not found.
+            if len(pos) == 0:
+                warnings.warn("Index %s for retrieving is not in the repository, skip." % str(k),
                               category=ValidityWarning)
-            return self._X[ind,] if self._instance_flag else None, self._y[ind,]
-        else:
-            ind = [np.argwhere(self._indexes == indexes[i]).flatten()[0] for i in range(len(indexes))]
-            return self._X[ind,] if self._instance_flag else None, self._y[ind,]
+            else:
+                ind.append(pos[0])
+        return self._X[ind,] if self._instance_flag else None, self._y[ind,]
 
     def _find_one_example(self, example):
         """Find the index of the given example in the repository."""
@@ -567,7 +597,7 @@ class MatrixRepository(BaseRepository):
             The indexes of the instances and labels.
             e.g. the first row of X_train is the indexes[0] instance in feature matrix X.
         """
-        return copy.deepcopy(self._X), copy.deepcopy(self._y), np.asarray(self._indexes)
+        return copy.deepcopy(self._X), copy.deepcopy(self._y), np.array(self._indexes)
 
     def clear(self):
         """
@@ -576,15 +606,16 @@ class MatrixRepository(BaseRepository):
         self.cost_inall = 0
         self._cost_arr = []
         self.num_of_queries = 0
-        self._instance_flag = False
-        self._X = None
-        self._y = None
-        self._indexes = None
+        if self._instance_flag:
+            self._X = self._X[:0]
+        self._y = self._y[:0]
+        self._indexes = self._indexes[:0]
         self._query_history.clear()
 
     def _update_query_history(self, labels, indexes, cost):
         """record the query history"""
-        self._query_history.append(((labels, cost), indexes))
+        # the caller may change its index container or lists later
+        self._query_history.append(copy.deepcopy(((labels, cost), indexes)))
 
     def full_history(self):
         """return full version of query history"""
-- 
2.43.0


From 8e2a146d1fdff65ed90af5ea82c6499a439e9b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:40 +0000
Subject: [PATCH 31/55] fix: splits: retry keeps the requested rate, names and
 {-1,1} labels, shape only, no endless retry

---
 alipy/data_manipulate/al_split.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index edb506b..216a348 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -128,7 +128,9 @@ def split(X=None, y=None, instance_indexes=None, query_type=None, test_ratio=0.3
                 label_num = len(np.unique(y))
             else:
                 label_num = y.shape[1]
-            if round((1 - test_ratio) * initial_label_rate * number_of_instance) < label_num:
+            # the sizes used below
+            train_size = int(round((1 - test_ratio) * number_of_instance))
+            if min(max(int(round(initial_label_rate * train_size)), 1), train_size) < label_num:
                 raise ValueError(
                     "The initial rate is too small to guarantee that each "
                     "split will contain at least one instance for each class.")
@@ -141,13 +143,13 @@ def split(X=None, y=None, instance_indexes=None, query_type=None, test_ratio=0.3
                 cutpointlabel = int(round(initial_label_rate * len(tp_train)))
                 if cutpointlabel <= 1:
                     cutpointlabel = 1
-                label_id = tp_train[0:cutpointlabel]
+                label_id = rp[0:cutpoint][0:cutpointlabel]  # positions, the indexes may be names
                 if y.ndim == 1:
                     if len(np.unique(y[label_id])) == label_num:
                         break
                 else:
-                    temp = np.sum(y[label_id], axis=0)
-                    if not np.any(temp == 0):
+                    # labels may be {0, 1} or {-1, 1}, only a relevant label can be covered
+                    if np.all(np.any(y[label_id] > 0, axis=0) == np.any(y > 0, axis=0)):
                         break
             train_idx.append(tp_train)
             test_idx.append(instance_indexes[rp[cutpoint:]])
@@ -221,7 +223,7 @@ def __split_data_matrix(data_matrix=None, matrix_shape=None, test_ratio=0.3, ini
         data_matrix = check_matrix(data_matrix)
         data_shape = data_matrix.shape
     if matrix_shape is not None:
-        if not isinstance(matrix_shape, tuple) and len(matrix_shape) == 2:
+        if not (isinstance(matrix_shape, tuple) and len(matrix_shape) == 2):
             raise TypeError("the shape of data matrix should be a tuple with 2 elements."
                             "The first one is the number of instances, and the other is the"
                             "number of _labels.")
@@ -254,7 +256,7 @@ def __split_data_matrix(data_matrix=None, matrix_shape=None, test_ratio=0.3, ini
                     tp_train = instance_indexes[rp[0:cutpoint]]
                     # split label & unlabel
                     train_size = len(tp_train)
-                    lab_ind = randperm((0, train_size * data_shape[1] - 1), int(round(initial_label_rate * train_size)))
+                    lab_ind = randperm((0, train_size * data_shape[1] - 1), int(round(initial_label_rate * train_size * data_shape[1])))
             train_idx.append(tp_train)
             test_idx.append(instance_indexes[rp[cutpoint:]])
             unlab_ind = set(np.arange(train_size * data_shape[1]))
@@ -269,21 +271,23 @@ def __split_data_matrix(data_matrix=None, matrix_shape=None, test_ratio=0.3, ini
             cutpoint_lab = int(round(initial_label_rate * len(tp_train)))
             if cutpoint_lab <= 1:
                 cutpoint_lab = 1
-            if all_class:
-                if cutpoint_lab < data_shape[1]:
+            if all_class and data_matrix is not None:
+                if min(cutpoint_lab, len(tp_train)) < data_shape[1]:
                     raise ValueError(
                         "The initial rate is too small to guarantee that each "
                         "split will contain at least one instance-feature pair for each class.")
                 while 1:
                     label_id = tp_train[0:cutpoint_lab]
-                    temp = np.sum(data_matrix[label_id], axis=0)
-                    if not np.any(temp == 0):
+                    # labels may be {0, 1} or {-1, 1}, only a relevant label can be covered
+                    if np.all(np.any(data_matrix[label_id] > 0, axis=0) == np.any(data_matrix > 0, axis=0)):
                         break
                     rp = randperm(data_shape[0] - 1)
                     cutpoint = int(round((1 - test_ratio) * len(rp)))
                     tp_train = instance_indexes[rp[0:cutpoint]]
 
                     cutpoint_lab = int(round(initial_label_rate * len(tp_train)))
+                    if cutpoint_lab <= 1:
+                        cutpoint_lab = 1
             train_idx.append(tp_train)
             test_idx.append(instance_indexes[rp[cutpoint:]])
             label_idx.append([(i,) for i in tp_train[0:cutpoint_lab]])
-- 
2.43.0


From 68a819d3bf8fdb6d5a0fc889dbb89ecddbfc8693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:05 +0000
Subject: [PATCH 32/55] fix: saved splits load back for one fold, names,
 multi-label and feature entries

---
 alipy/data_manipulate/al_split.py | 35 +++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index 216a348..ed6cd9f 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -436,13 +436,19 @@ def split_load(path):
 
     ret_arr = []
     for fname in ['train_idx.txt', 'test_idx.txt', 'label_idx.txt', 'unlabel_idx.txt']:
+        npy_path = os.path.join(saving_path, os.path.splitext(fname)[0] + '.npy')
         if not os.path.exists(os.path.join(saving_path, fname)):
-            if os.path.exists(os.path.join(saving_path, fname.split()[0] + '.npy')):
-                ret_arr.append(np.load(os.path.join(saving_path, fname.split()[0] + '.npy')))
+            if os.path.exists(npy_path):
+                arr = np.load(npy_path)
+                if arr.ndim == 3:
+                    # multi-label or feature indexes
+                    ret_arr.append([[tuple(i) for i in fold] for fold in arr])
+                else:
+                    ret_arr.append(arr)
             else:
                 ret_arr.append(None)
         else:
-            ret_arr.append(np.loadtxt(os.path.join(saving_path, fname), dtype=int))
+            ret_arr.append(np.loadtxt(os.path.join(saving_path, fname), dtype=int, ndmin=2))
     return ret_arr[0], ret_arr[1], ret_arr[2], ret_arr[3]
 
 
@@ -464,13 +470,20 @@ def split_save(train_idx, test_idx, label_idx, unlabel_idx, path):
 
     saving_path = os.path.abspath(path)
     if os.path.isdir(saving_path):
-        np.savetxt(os.path.join(saving_path, 'train_idx.txt'), train_idx, fmt='%d')
-        np.savetxt(os.path.join(saving_path, 'test_idx.txt'), test_idx, fmt='%d')
-        if len(np.shape(label_idx)) == 2:
-            np.savetxt(os.path.join(saving_path, 'label_idx.txt'), label_idx, fmt='%d')
-            np.savetxt(os.path.join(saving_path, 'unlabel_idx.txt'), unlabel_idx, fmt='%d')
-        else:
-            np.save(os.path.join(saving_path, 'label_idx.npy'), label_idx)
-            np.save(os.path.join(saving_path, 'unlabel_idx.npy'), unlabel_idx)
+        for name, idx in (('train_idx', train_idx), ('test_idx', test_idx),
+                          ('label_idx', label_idx), ('unlabel_idx', unlabel_idx)):
+            txt_path = os.path.join(saving_path, name + '.txt')
+            npy_path = os.path.join(saving_path, name + '.npy')
+            idx = np.asarray(idx)
+            if idx.ndim == 2 and idx.size > 0 and np.issubdtype(idx.dtype, np.integer):
+                np.savetxt(txt_path, idx, fmt='%d')
+                old_path = npy_path
+            else:
+                # multi-label or feature indexes, names or empty sets
+                np.save(npy_path, idx)
+                old_path = txt_path
+            # a file of an earlier split in the other format
+            if os.path.exists(old_path):
+                os.remove(old_path)
     else:
         raise Exception("A path to a directory is expected.")
-- 
2.43.0


From 1b4829b6212f5d7dcf58caa14e960602811d10e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:05 +0000
Subject: [PATCH 33/55] fix: ToolBox splits features, serves oracles and
 repositories of every query type with their costs and names, returns copies
 of its splits

---
 alipy/toolbox.py | 64 ++++++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 0ccfba6..797e8c6 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -4,6 +4,7 @@ import pickle
 import warnings
 import inspect
 
+import numpy as np
 from sklearn.linear_model import LogisticRegression
 from sklearn.utils import check_array
 from sklearn.utils.multiclass import type_of_target, unique_labels
@@ -111,7 +112,11 @@ class ToolBox:
             self._target_type = ytype
         self._index_len = len(self._y)
         if len(self._y.shape) == 1:
-            self._label_space = unique_labels(self._y)
+            if ytype == 'continuous':
+                # regression
+                self._label_space = list(np.unique(self._y))
+            else:
+                self._label_space = unique_labels(self._y)
         elif len(self._y.shape) == 2:
             self._label_space = list(range(self._y.shape[1]))
         else:
@@ -224,10 +229,10 @@ class ToolBox:
         if self._split is True:
             warnings.warn("Data has already been split. Return the existed split in case of overwriting.",
                           category=RuntimeWarning)
-            return self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx
+            return self.get_split()
 
         self.split_count = split_count
-        if self._target_type != 'Features':
+        if self.query_type != 'Features':
             if self._target_type != 'multilabel':
                 self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx = split(
                     X=self._X if self._instance_flag else None,
@@ -237,7 +242,7 @@ class ToolBox:
                     split_count=split_count,
                     instance_indexes=self._indexes,
                     all_class=all_class,
-                    saving_path=self._saving_path)
+                    saving_path=self._saving_dir)
             else:
                 self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx = split_multi_label(
                     y=self._y,
@@ -246,7 +251,7 @@ class ToolBox:
                     initial_label_rate=initial_label_rate,
                     split_count=split_count,
                     all_class=all_class,
-                    saving_path=self._saving_path
+                    saving_path=self._saving_dir
                 )
         else:
             self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx = split_features(
@@ -255,11 +260,11 @@ class ToolBox:
                 missing_rate=1 - initial_label_rate,
                 split_count=split_count,
                 all_features=all_class,
-                saving_path=self._saving_path
+                saving_path=self._saving_dir
             )
         self._split = True
         self.save()
-        return self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx
+        return self.get_split()
 
     def get_split(self, round=None):
         """Get split of one fold experiment.
@@ -314,13 +319,12 @@ class ToolBox:
         """
         if self.query_type == 'Features':
             return OracleQueryFeatures(feature_mat=self._X, cost=cost_mat)
-        elif self.query_type == 'AllLabels':
+        else:
+            examples = self._X if query_by_example else None
             if self._target_type == 'multilabel':
-                return OracleQueryMultiLabel(self._y) if not query_by_example else OracleQueryMultiLabel(self._y,
-                                                                                                         examples=self._X,
-                                                                                                         cost=cost_mat)
+                return OracleQueryMultiLabel(self._y, examples=examples, cost=cost_mat)
             else:
-                return Oracle(self._y) if not query_by_example else Oracle(self._y, examples=self._X, cost=cost_mat)
+                return Oracle(self._y, examples=examples, indexes=self._indexes, cost=cost_mat)
 
     def get_stateio(self, round, saving_path=None, check_flag=True, verbose=True, print_interval=1):
         """Get a stateio object for experiment saving.
@@ -375,14 +379,22 @@ class ToolBox:
         """
         assert (0 <= round < self.split_count)
         train_id, test_id, Lcollection, Ucollection = self.get_split(round)
+        indexes = Lcollection.index
         if self.query_type == 'AllLabels':
-            return MatrixRepository(labels=self._y[Lcollection.index],
-                                    examples=self._X[Lcollection.index, :] if instance_flag else None,
-                                    indexes=Lcollection.index)
+            if self._target_type == 'multilabel':
+                indexes = positions = sorted(Lcollection.get_unbroken_instances())
+            else:
+                # the indexes of the split may be names
+                positions = [list(self._indexes).index(i) for i in indexes]
+            return MatrixRepository(labels=self._y[positions],
+                                    examples=self._X[positions, :] if instance_flag else None,
+                                    indexes=indexes)
         else:
-            return ElementRepository(labels=self._y[Lcollection.index],
-                                     examples=self._X[Lcollection.index, :] if instance_flag else None,
-                                     indexes=Lcollection.index)
+            # pairs of (instance, label) or (instance, feature)
+            values = self._X if self.query_type == 'Features' else self._y
+            return ElementRepository(labels=[values[i] for i in indexes],
+                                     examples=self._X[[i[0] for i in indexes], :] if instance_flag else None,
+                                     indexes=indexes)
 
     def get_query_strategy(self, strategy_name="QueryInstanceRandom", **kwargs):
         """Return the query strategy object.
@@ -410,7 +422,7 @@ class ToolBox:
         except:
             raise KeyError("Strategy " + strategy_name + " is not implemented in ALiPy.")
         strategy = None
-        strategy = eval(strategy_name + "(X=self._X, y=self._y, **kwargs)")
+        strategy = eval(strategy_name + "(X=self._X if self._instance_flag else None, y=self._y, **kwargs)")
         # print(strategy)
         return strategy
 
@@ -442,7 +454,10 @@ class ToolBox:
         if 'y_pred' in metric_para.parameters:
             return performance_metric(y_pred=y_pred, y_true=y_true, **kwargs)
         else:
-            y_pred = y_pred[:, 0]
+            y_pred = np.asarray(y_pred)
+            if y_pred.ndim == 2 and 'pos_label' in metric_para.parameters:
+                # the score of the positive class
+                y_pred = y_pred[:, -1]
             return performance_metric(y_score=y_pred, y_true=y_true, **kwargs)
 
     def get_default_model(self):
@@ -522,10 +537,11 @@ class ToolBox:
             raise Exception("instance matrix is necessary for initializing aceThreading object.")
         if not self._split:
             raise Exception("The split information is not found, please split the data or set the split setting first.")
+        train_idx, test_idx, label_idx, unlabel_idx = zip(*[self.get_split(i) for i in range(self.split_count)])
         return aceThreading(examples=self._X, labels=self._y,
-                            train_idx=self.train_idx, test_idx=self.test_idx,
-                            label_index=self.label_idx,
-                            unlabel_index=self.unlabel_idx,
+                            train_idx=train_idx, test_idx=test_idx,
+                            label_index=label_idx,
+                            unlabel_index=unlabel_idx,
                             refresh_interval=refresh_interval,
                             max_thread=max_thread,
                             saving_path=saving_path,
@@ -570,7 +586,7 @@ class ToolBox:
             return MultiLabelIndexCollection(data=array, label_size=self._y.shape[1] if label_mat_shape is None else
             label_mat_shape[1])
         else:
-            return MultiLabelIndexCollection.construct_by_1d_array(data=array,
+            return MultiLabelIndexCollection.construct_by_1d_array(array=array,
                                                                    label_mat_shape=self._y.shape if label_mat_shape is None else label_mat_shape,
                                                                    order=order)
 
-- 
2.43.0


From 2343b55b25e38fea7e5c7f6a59657ecbeb897ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:58 +0000
Subject: [PATCH 34/55] fix: multi-label strategies return a valid request for
 small pools and use the known labels only

QUIRE pairs each known label with its own entry and inverts the right block,
MMC and Adaptive keep the containers of the caller, DummyClf accepts -1,
random selection counts instances when it selects instances.
---
 alipy/query_strategy/multi_label.py | 52 +++++++++++++++++++----------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 8b6855e..051a506 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -449,9 +449,11 @@ class QueryMultiLabelQUIRE(BaseMultiLabelQuery):
             A list of tuples that contains the indexes of selected instance-label pairs.
         """
 
-        if len(unlabel_index) <= 1:
-            return unlabel_index
+        if len(unlabel_index) == 0:
+            return []
         unlabel_index = self._check_multi_label_ind(unlabel_index)
+        if len(unlabel_index) == 1:
+            return list(unlabel_index.index)
         label_index = self._check_multi_label_ind(label_index)
 
         L_kr = np.kron(np.eye(self.y.shape[1]), self.L)
@@ -464,9 +466,10 @@ class QueryMultiLabelQUIRE(BaseMultiLabelQuery):
         #     Uidx_row.append((uind[0] + uind[1] * self.X.shape[0]) % self.L.shape[0])
         Uidx = unlabel_index.get_onedim_index(order='F', ins_num=self.X.shape[0])
         Sidx = label_index.get_onedim_index(order='F', ins_num=self.X.shape[0])
-        Uidx = np.sort(Uidx)
-        Sidx = np.sort(Sidx)
-        Ys = [self.y[lind] for lind in label_index]
+        Uidx = np.sort(np.asarray(Uidx, dtype=int))
+        Sidx = np.sort(np.asarray(Sidx, dtype=int))
+        # in the order of Sidx
+        Ys = [self.y[sind % self.X.shape[0], sind // self.X.shape[0]] for sind in Sidx]
         # for lind in label_index:
         #     Sidx.append(lind[0])
         #     Ys.append(self.y[lind])
@@ -485,7 +488,7 @@ class QueryMultiLabelQUIRE(BaseMultiLabelQuery):
             tmp0 = Lqq  # +Ys'*Lss*Ys;
 
             b = -(LL[i, tmpidx])
-            invLrr = LL[np.ix_(tmpidx, tmpidx)] - b.T.dot(b) / LL[i, i]
+            invLrr = LL[np.ix_(tmpidx, tmpidx)] - np.outer(b, b) / LL[i, i]
             vt1 = YsLsu[tmpidx]
             vt2 = 2 * YsLsu[i]
             tmp1 = vt1 + Lqr
@@ -558,9 +561,11 @@ class QueryMultiLabelAUDI(BaseMultiLabelQuery):
         selected_ins_lab_pair: list
             A list of tuples that contains the indexes of selected instance-label pairs.
         """
-        if len(unlabel_index) <= 1:
-            return unlabel_index
+        if len(unlabel_index) == 0:
+            return []
         unlabel_index = self._check_multi_label_ind(unlabel_index)
+        if len(unlabel_index) == 1:
+            return list(unlabel_index.index)
         label_index = self._check_multi_label_ind(label_index)
 
         unlab_data, _, data_ind = get_Xy_in_multilabel(index=unlabel_index, X=self.X, y=self.y)
@@ -640,7 +645,8 @@ class DummyClf():
 
     def predict_proba(self, X):
         ret = np.zeros((len(X), 2))
-        ret[:, self.cls] = 1.
+        # the irrelevant label is 0 or -1
+        ret[:, 1 if self.cls > 0 else 0] = 1.
         return ret
 
 
@@ -901,7 +907,7 @@ class QueryMultiLabelMMC(BaseIndexQuery):
 
         trnf = np.sort(trnf, axis=1)[:, ::-1]
         trnf /= np.tile(trnf.sum(axis=1).reshape(-1, 1), (1, trnf.shape[1]))
-        if len(np.unique(self.y.sum(axis=1))) == 1:
+        if len(np.unique(self.y[label_index].sum(axis=1))) == 1:
             lr = DummyClf()
         else:
             lr = self.logistic_regression_
@@ -958,8 +964,11 @@ class QueryMultiLabelMMC(BaseIndexQuery):
             raise TypeError("index type error")
         
         if len(unlabel_index) <= batch_size:
-            return list(unlabel_index)
-        
+            return [(i, ) for i in unlabel_index]
+
+        # the containers of the caller are kept
+        label_index = copy.deepcopy(label_index)
+        unlabel_index = copy.deepcopy(unlabel_index)
         select_index = []
         for i in range(batch_size):
             selected = self.sequential_select(label_index, unlabel_index)
@@ -1145,8 +1154,11 @@ class QueryMultiLabelAdaptive(BaseIndexQuery):
             raise TypeError("index type error")
         
         if len(unlabel_index) <= batch_size:
-            return list(unlabel_index)
-        
+            return [(i, ) for i in unlabel_index]
+
+        # the containers of the caller are kept
+        label_index = copy.deepcopy(label_index)
+        unlabel_index = copy.deepcopy(unlabel_index)
         select_index = []
         for i in range(batch_size):
             selected = self.sequential_select(label_index, unlabel_index)
@@ -1186,16 +1198,20 @@ class QueryMultiLabelRandom(BaseMultiLabelQuery):
             The selected indexes. It is a list of tuples.
         """
         if select_type == 'ins':
-            if len(unlabel_index) <= batch_size:
-                return unlabel_index
+            if len(unlabel_index) == 0:
+                return []
             unkonwn_entries = self._check_multi_label_ind(unlabel_index)
             unkonwn_ins = unkonwn_entries.get_instance_index()
+            if len(unkonwn_ins) <= batch_size:
+                return [(i,) for i in unkonwn_ins]
             perm = randperm(len(unkonwn_ins) - 1, batch_size)
             return [(unkonwn_ins[i],) for i in perm]
         elif select_type == 'ins-lab':
-            if len(unlabel_index) <= batch_size:
-                return unlabel_index
+            if len(unlabel_index) == 0:
+                return []
             unkonwn_entries = self._check_multi_label_ind(unlabel_index)
+            if len(unkonwn_entries) <= batch_size:
+                return list(unkonwn_entries.index)
             perm = randperm(len(unkonwn_entries) - 1, batch_size)
             tpl = list(unkonwn_entries.index)
             return [tpl[i] for i in perm]
-- 
2.43.0


From 7814439425d6c437c7b4d69b12c7fb56b2a6aaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:58 +0000
Subject: [PATCH 35/55] fix: feature acquisition selects among the unknown
 entries and uses observed values only

---
 alipy/query_strategy/query_features.py | 61 ++++++++++++++++++--------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index 4ed96db..9db25f9 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -40,6 +40,14 @@ __all__ = ['AFASMC_mc',
            'QueryFeatureStability',
            ]
 
+def _entries_mask(entries, train_idx, mat_shape):
+    """Get the bool matrix of the (instance, feature) entries which belong to the training set."""
+    mask = np.zeros(mat_shape, dtype=bool)
+    for ins, feature in entries:
+        mask[train_idx == ins, feature] = True
+    return mask
+
+
 def _svd_threshold(svd_obj, lambdadL):
     svd_obj = np.asarray(svd_obj)
     eig_obj = svd_obj.T.dot(svd_obj)
@@ -365,7 +373,8 @@ class IterativeSVD_mc:
             assert 0 in ue
             assert 1 in ue
         missing_mask = 1 - observed_mask
-        X_filled = X * missing_mask
+        # only the observed entries are used
+        X_filled = X * observed_mask
         for i in range(self.max_iters):
             # deviation from original svdImpute algorithm:
             # gradually increase the rank of our approximation
@@ -441,15 +450,18 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
             Note that, the index is for the the WHOLE dataset, NOT THE TRAINING SET.
         """
         # build map from value to index
-        if len(unkonwn_entries) <= 1:
-            return unkonwn_entries
+        if len(unkonwn_entries) == 0:
+            return []
         unkonwn_entries = self._check_feature_ind(unkonwn_entries)
+        if len(unkonwn_entries) == 1:
+            return list(unkonwn_entries.index)
         observed_entries = self._check_feature_ind(observed_entries)
 
         if self._train_idx is None:
             obi = observed_entries.get_instance_index()
             uni = unkonwn_entries.get_instance_index()
             self._train_idx = np.union1d(obi, uni)
+        self._train_idx = np.asarray(self._train_idx)
 
         # map entries of the whole data to the training data
         tr_ob = []
@@ -459,22 +471,23 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
             tr_ob.append((ind_in_train, entry[1]))
             # else:
             #     tr_ob.append(entry)
-        tr_ob = MultiLabelIndexCollection(tr_ob)
+        tr_ob = MultiLabelIndexCollection(tr_ob, self.X.shape[1])
 
         # matrix completion
         X_mc = AFASMC_mc(X=self.X[self._train_idx], y=self.y[self._train_idx], omega=tr_ob, **kwargs)
         self._feature_variance.append(X_mc)
         mc_sh = np.shape(X_mc)
+        candidates = _entries_mask(unkonwn_entries, self._train_idx, mc_sh)
         if len(self._feature_variance) >= 2:
             var_mat = np.zeros(mc_sh)
             for i in range(mc_sh[0]):
                 for j in range(mc_sh[1]):
                     var_mat[i, j] = np.var([mat[i][j] for mat in self._feature_variance])
-            var_mat *= 1 - tr_ob.get_matrix_mask(mat_shape=mc_sh, sparse=False)
-            # in the first 2 rounds, all entries are 0, you will select the known elements.
+            # the variances can all be 0, only the unknown entries are candidates
+            var_mat[~candidates] = -np.inf
             selected_feature = np.argmax(var_mat)  # a 1d index in training set
         else:
-            selected_feature = np.argmax(1 - tr_ob.get_matrix_mask(mat_shape=mc_sh, sparse=False))
+            selected_feature = np.argmax(candidates)
 
         return [(self._train_idx[selected_feature // mc_sh[1]], selected_feature % mc_sh[1])]
 
@@ -511,8 +524,8 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
             for i in range(mc_sh[0]):
                 for j in range(mc_sh[1]):
                     var_mat[i, j] = np.var([mat[i][j] for mat in self._feature_variance])
-            var_mat *= 1 - observed_mask
-            # in the first 2 rounds, all entries are 0, you will select the known elements.
+            # the variances can all be 0, only the unknown entries are candidates
+            var_mat[observed_mask == 1] = -np.inf
             selected_feature = np.argmax(var_mat)  # a 1d index in training set
         else:
             selected_feature = np.argmax(1 - observed_mask)
@@ -548,9 +561,11 @@ class QueryFeatureRandom(BaseFeatureQuery):
             Note that, the index is a subset of unkonwn_entries.
         """
         # build map from value to index
-        if len(unkonwn_entries) <= 1:
-            return unkonwn_entries
+        if len(unkonwn_entries) == 0:
+            return []
         unkonwn_entries = self._check_feature_ind(unkonwn_entries)
+        if len(unkonwn_entries) <= batch_size:
+            return list(unkonwn_entries.index)
         perm = randperm(len(unkonwn_entries) - 1, batch_size)
         tpl = list(unkonwn_entries.index)
         return [tpl[i] for i in perm]
@@ -618,15 +633,18 @@ class QueryFeatureStability(BaseFeatureQuery):
             Note that, the index is for the the WHOLE dataset, NOT THE TRAINING SET.
         """
         # build map from value to index
-        if len(unkonwn_entries) <= 1:
-            return unkonwn_entries
+        if len(unkonwn_entries) == 0:
+            return []
         unkonwn_entries = self._check_feature_ind(unkonwn_entries)
+        if len(unkonwn_entries) == 1:
+            return list(unkonwn_entries.index)
         observed_entries = self._check_feature_ind(observed_entries)
 
         if self._train_idx is None:
             obi = observed_entries.get_instance_index()
             uni = unkonwn_entries.get_instance_index()
             self._train_idx = np.union1d(obi, uni)
+        self._train_idx = np.asarray(self._train_idx)
 
         # map entries of the whole data to the training data
         tr_ob = []
@@ -636,10 +654,12 @@ class QueryFeatureStability(BaseFeatureQuery):
             tr_ob.append((ind_in_train, entry[1]))
             # else:
             #     tr_ob.append(entry)
-        tr_ob = MultiLabelIndexCollection(tr_ob)
+        tr_ob = MultiLabelIndexCollection(tr_ob, self.X.shape[1])
 
-        selected_feature_in_train = self.select_by_mask(
-            observed_mask=tr_ob.get_matrix_mask(mat_shape=(len(self._train_idx), self.X.shape[1]), sparse=False))
+        mat_shape = (len(self._train_idx), self.X.shape[1])
+        selected_feature_in_train = self._select_candidate(
+            observed_mask=tr_ob.get_matrix_mask(mat_shape=mat_shape, sparse=False),
+            candidates=_entries_mask(unkonwn_entries, self._train_idx, mat_shape))
 
         return [(self._train_idx[selected_feature_in_train[0][0]], selected_feature_in_train[0][1])]
 
@@ -667,6 +687,10 @@ class QueryFeatureStability(BaseFeatureQuery):
         assert observed_mask.shape[0] == len(self._train_idx)
         assert observed_mask.shape[1] == self.X.shape[1]
 
+        return self._select_candidate(observed_mask, observed_mask != 1)
+
+    def _select_candidate(self, observed_mask, candidates):
+        """Select the most uncertain one of the candidates (a bool matrix)."""
         X_mc_arr = []
         for comt in self._committee:
             X_mc_arr.append(comt.impute(X=self.X[self._train_idx], observed_mask=observed_mask))
@@ -677,9 +701,10 @@ class QueryFeatureStability(BaseFeatureQuery):
             for i in range(mc_sh[0]):
                 for j in range(mc_sh[1]):
                     var_mat[i, j] = np.var([mat[i][j] for mat in X_mc_arr])
-            var_mat *= 1 - observed_mask
+            # the variances can all be 0, only the unknown entries are candidates
+            var_mat[~candidates] = -np.inf
             selected_feature = np.argmax(var_mat)
         else:
-            selected_feature = np.argmax(1 - observed_mask)
+            selected_feature = np.argmax(candidates)
 
         return [(selected_feature // mc_sh[1], selected_feature % mc_sh[1])]
-- 
2.43.0


From 14a1c467497e9ccae2831ba4f3f16c0a31c249de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:58 +0000
Subject: [PATCH 36/55] fix: AURO accepts a single whole instance as the
 unknown entries

---
 alipy/query_strategy/query_type.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_type.py b/alipy/query_strategy/query_type.py
index 61169a8..3f63a30 100644
--- a/alipy/query_strategy/query_type.py
+++ b/alipy/query_strategy/query_type.py
@@ -126,9 +126,11 @@ class QueryTypeAURO(BaseMultiLabelQuery):
         y1, y2: int
             The indexes of selected labels.
         """
-        if len(unlabel_index) <= 1:
+        if len(unlabel_index) == 0:
             return unlabel_index
         unlabel_index = self._check_multi_label_ind(unlabel_index)
+        if len(unlabel_index) <= 1:
+            return unlabel_index
         label_index = self._check_multi_label_ind(label_index)
         if y_mat is None:
             y_mat = self.y
-- 
2.43.0


From 03434a312d8d2620f1837ba45ebc864507c7e86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 37/55] fix: cost-sensitive strategies buy unknown entries
 only, within the budget and optimally; hierarchy marks ancestors and
 descendants

Known entries had value 0 instead of -inf and could be bought, the best entry
was cut off, oracles could not give the costs, the random strategy failed on an
exhausted pool; a positive label implies its ancestors, a negative one its
descendants (all of them, not only the neighbours).
---
 alipy/query_strategy/cost_sensitive.py | 136 ++++++++++++-------------
 1 file changed, 68 insertions(+), 68 deletions(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index aa67f58..9a4a787 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -49,6 +49,10 @@ def select_Knapsack_01(infor_value, costs, capacity):
     """
     assert(len(infor_value) == len(costs))
     num = len(infor_value)
+    if any(cost != int(cost) for cost in costs):
+        raise ValueError("The costs should be integers.")
+    costs = [int(cost) for cost in costs]
+    capacity = int(capacity)
     dp = np.zeros((num + 1, capacity + 1))
     flag = np.zeros(num)
     for i in range(num):
@@ -148,6 +152,42 @@ def select_POSS(infor_value, costs, budget):
 
     return min_infovalue, selectedVariables
 
+def _reachable_labels(adjacency, label):
+    """Get the labels which can be reached from the given label (not included)."""
+    found = set()
+    to_visit = [label]
+    while to_visit:
+        for successor in np.nonzero(adjacency[to_visit.pop()])[0]:
+            if successor not in found:
+                found.add(successor)
+                to_visit.append(successor)
+    found.discard(label)
+    return sorted(found)
+
+
+def _selectable_items(value_mat, costs, budget):
+    """Get the (instance, label) pairs worth considering, their values and their costs.
+
+    The pairs with value -inf are not selectable. At most budget // cost
+    pairs of a label can be bought.
+    """
+    instance_pair = []
+    infor_value = []
+    corresponding_cost = []
+    for j in np.arange(value_mat.shape[1]):
+        j_info = value_mat[:, j]
+        # sort the infor in descent way
+        sort_index = np.argsort(j_info)[::-1]
+        sort_index = sort_index[j_info[sort_index] != -np.inf]
+        if costs[j] > 0:
+            sort_index = sort_index[0: int(budget // costs[j])]
+        for i in sort_index:
+            instance_pair.append((i, j))
+            infor_value.append(j_info[i])
+            corresponding_cost.append(costs[j])
+    return instance_pair, infor_value, corresponding_cost
+
+
 def hierarchical_multilabel_mark(multilabel_index, label_index, label_tree, y_true):
     """"Complete instance-label information according to hierarchy in the label-tree.
     
@@ -209,20 +249,22 @@ def hierarchical_multilabel_mark(multilabel_index, label_index, label_tree, y_tr
     assert(np.shape(label_tree)[0] == n_classes and np.shape(label_tree)[1] == n_classes)
 
     add_label_index = MultiLabelIndexCollection(label_size=n_classes)
-      
+    label_tree = np.asarray(label_tree)
+
     for instance_label_pair in multilabel_index:
         i_instance = instance_label_pair[0]
         j_label = instance_label_pair[1]
         if y_true[instance_label_pair] == 1:
-            for descent_label in range(n_classes):
-                if label_tree[j_label][descent_label] == 1:
-                    if (not (i_instance, descent_label) in label_index):
-                        add_label_index.update((i_instance, descent_label))   
+            # the ancestors of a positive label are positive
+            implied_labels = _reachable_labels(label_tree.T, j_label)
         elif y_true[instance_label_pair] == -1:
-            for parent_label in range(n_classes):
-                if label_tree[parent_label][j_label] == 1:
-                    if (not (i_instance, parent_label) in label_index):
-                        add_label_index.update((i_instance, parent_label))
+            # the descendants of a negative label are negative
+            implied_labels = _reachable_labels(label_tree, j_label)
+        else:
+            implied_labels = []
+        for label in implied_labels:
+            if (i_instance, label) not in label_index and (i_instance, label) not in add_label_index:
+                add_label_index.update((i_instance, label))
 
     for i in add_label_index:
         if not i in multilabel_index:
@@ -268,9 +310,10 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
         if weights is None:
             self.weights = np.ones(self.n_classes)
         else:
-            assert(np.shape(y)[0] == len(weights))
+            weights = np.asarray(weights).flatten()
+            assert(self.n_classes == len(weights))
             self.weights = weights
-        self.label_tree = label_tree
+        self.label_tree = np.asarray(label_tree)
         self.Distance = self._cal_Distance()
     
     def _cal_Distance(self):
@@ -331,7 +374,7 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
             if i in label_samples[0]:
                 g_j = self.y[i, j_class]
             else:
-                g_j = models[j_class].predict([self.X[i, :]])
+                g_j = models[j_class].predict([self.X[i, :]])[0]
             vote.append(np.sign(g_j))       
         return np.sign(np.sum(vote)) 
     
@@ -345,10 +388,10 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
         while not que.empty():
             temp = que.get()
             if np.any(self.label_tree[temp]):
-                for i in self.label_tree[temp]:
-                    if self.label_tree[temp, i] == 1:
-                        que.put(i)
-            else:
+                for i in np.nonzero(self.label_tree[temp])[0]:
+                    que.put(i)
+            elif Uncertainty[xi_index][temp] != -np.inf:
+                # the known labels are not uncertain
                 Udes += Uncertainty[xi_index][temp]
         return Udes
     
@@ -373,7 +416,7 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
                     Infor[i][j] = Uncertainty[i][j] * 2
                 elif flag == -1:
                     Infor[i][j] = Uncertainty[i][j] + self.cal_Udes(i, j, Uncertainty)
-            Infor[j_label][j] = -np.infty
+            Infor[j_label, j] = -np.infty
         return Infor
         
     def select(self, label_index, unlabel_index, cost=None, oracle=None, budget=40, models=None, base_model=None):
@@ -432,38 +475,16 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
             cost = [1]*n_classes
 
         if oracle:
-            _, costs = oracle.query_by_index(range(self.n_classes))
+            _, costs = oracle.query_by_index(list(range(self.n_classes)))
         else:
             costs = cost
         
         Infor = self.cal_Informativeness(label_index, unlabel_index, models)
-        instance_pair = np.array([0, 0])
-        infor_value=np.array([0])
-        corresponding_cost = np.array([0],dtype=int)
-
-        # sort the infor in descent way,in the meanwhile record instance label pair
-        for j in np.arange(self.n_classes):
-            j_info = Infor[:, j]
-            sort_index = np.argsort(j_info)
-            sort_index = sort_index[::-1]
-            sort_index = sort_index[0: budget]
-            useless_index = np.where(Infor[sort_index][j] == -np.infty)
-            sort_index = sort_index[: budget - len(useless_index)]
-            
-            j_instance_pair = np.column_stack((sort_index, np.ones(len(sort_index), dtype=int) * j))
-            for k in sort_index:
-                infor_value = np.r_[infor_value, Infor[k][j]]
-            corresponding_cost = np.r_[corresponding_cost, np.ones(len(sort_index),dtype=int) * costs[j]]
-            instance_pair = np.vstack((instance_pair, j_instance_pair))
-        
-        instance_pair = instance_pair[1:,]
-        infor_value = infor_value[1:]
-        corresponding_cost = corresponding_cost[1:]
-
+        instance_pair, infor_value, corresponding_cost = _selectable_items(Infor, costs, budget)
         max_value, select_result = select_Knapsack_01(infor_value, corresponding_cost, budget)
         # max_value, select_result = select_POSS(infor_value, corresponding_cost, budget)
 
-        multilabel_index = [tuple(i) for i in list(instance_pair[np.where(select_result!=0)[0]])]
+        multilabel_index = [instance_pair[i] for i in np.where(select_result != 0)[0]]
         # return MultiLabelIndexCollection(multilabel_index, label_size=self.n_classes)
         return multilabel_index
         
@@ -524,14 +545,14 @@ class QueryCostSensitiveRandom(BaseMultiLabelQuery):
         if oracle is None and cost is None:
             cost = [1]*n_classes
         if oracle:
-            _, costs = oracle.query_by_index(range(n_classes))
+            _, costs = oracle.query_by_index(list(range(n_classes)))
         else:
             costs = cost
 
         instance_pair = MultiLabelIndexCollection(label_size=n_classes)
         un_ind = copy.deepcopy(unlabel_index)
         current_cost = 0.
-        while True:
+        while len(un_ind) > 0:
             rand = np.random.choice(len(un_ind))
             i_j = flattern_multilabel_index(un_ind.index)[rand]
             j_class = i_j[1]
@@ -614,7 +635,7 @@ class QueryCostSensitivePerformance(BaseMultiLabelQuery):
             cost = [1]*n_classes
 
         if oracle:
-            _, costs = oracle.query_by_index(range(self.n_classes))
+            _, costs = oracle.query_by_index(list(range(self.n_classes)))
         else:
             costs = cost
         if models is None:
@@ -624,31 +645,10 @@ class QueryCostSensitivePerformance(BaseMultiLabelQuery):
         unlabel_index = self._check_multi_label_ind(unlabel_index)
         target = unlabel_index.get_matrix_mask((self.n_samples, self.n_classes), sparse=False)
         uncertainty = self.cal_uncertainty(target, models)
-        instance_pair = np.array([0, 0])
-        infor_value=np.array([0])
-        corresponding_cost = np.array([0],dtype=int)
-
-        # sort the infor in descent way,in the meanwhile record instance label pair
-        for j in np.arange(self.n_classes):
-            j_info = uncertainty[:, j]
-            sort_index = np.argsort(j_info)
-            sort_index = sort_index[::-1]
-            sort_index = sort_index[0: budget]
-            useless_index = np.where(uncertainty[sort_index][j] == -np.infty)
-            sort_index = sort_index[: budget - len(useless_index)]  
-            j_instance_pair = np.column_stack((sort_index, np.ones(len(sort_index), dtype=int) * j))
-            for k in sort_index:
-                infor_value = np.r_[infor_value, uncertainty[k][j]]
-            # infor_value = np.r_[infor_value, uncertainty[sort_index][j]]
-            corresponding_cost = np.r_[corresponding_cost, np.ones(len(sort_index),dtype=int) * costs[j]]
-            instance_pair = np.vstack((instance_pair, j_instance_pair))
-        
-        instance_pair = instance_pair[1:,]
-        infor_value = infor_value[1:]
-        corresponding_cost = corresponding_cost[1:]
+        instance_pair, infor_value, corresponding_cost = _selectable_items(uncertainty, costs, budget)
 
         _ , select_result = select_Knapsack_01(infor_value, corresponding_cost, budget)
-        multilabel_index = [tuple(i) for i in list(instance_pair[np.where(select_result!=0)[0]])]
+        multilabel_index = [instance_pair[i] for i in np.where(select_result != 0)[0]]
         # return MultiLabelIndexCollection(multilabel_index, label_size=self.n_classes)
         return multilabel_index
 
-- 
2.43.0


From fd14fa1ad7a443f151df732027a63d03b451c3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:13 +0000
Subject: [PATCH 38/55] fix: noisy-oracle strategies handle the last unlabelled
 items, honour eval_cost and count rewards per oracle

---
 alipy/query_strategy/noisy_oracles.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index 26fc96a..9dacad9 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -257,12 +257,14 @@ class QueryNoisyOraclesCEAL(BaseNoisyOracleQuery):
             If a Oracles object is given, the oracle name will be returned.
         """
 
+        if len(unlabel_index) == 0:
+            return [], []
         if model is None:
             model = LogisticRegression(solver='liblinear')
             model.fit(self.X[label_index], self.y[label_index])
         pred_unlab, _ = _get_proba_pred(self.X[unlabel_index], model)
 
-        n_neighbors = min(kwargs.pop('n_neighbors', 10), len(self._ini_ind) - 1)
+        n_neighbors = kwargs.pop('n_neighbors', 10)
         return self.select_by_prediction_mat(label_index, unlabel_index, pred_unlab,
                                              n_neighbors=n_neighbors, eval_cost=eval_cost)
 
@@ -297,8 +299,10 @@ class QueryNoisyOraclesCEAL(BaseNoisyOracleQuery):
             If a list is given, the index of oracle will be returned.
             If a Oracles object is given, the oracle name will be returned.
         """
-        n_neighbors = min(kwargs.pop('n_neighbors', 10), len(self._ini_ind)-1)
-        eval_cost = kwargs.pop('n_neighbors', False)
+        if len(unlabel_index) == 0:
+            return [], []
+        n_neighbors = min(kwargs.pop('n_neighbors', 10), len(self._ini_ind))
+        eval_cost = kwargs.pop('eval_cost', False)
         Q_table, oracle_ind_name_dict = self._calc_Q_table(label_index, unlabel_index, self._oracles, predict,
                                                            n_neighbors=n_neighbors, eval_cost=eval_cost)
         # get the instance-oracle pair
@@ -350,8 +354,6 @@ class QueryNoisyOraclesCEAL(BaseNoisyOracleQuery):
         unlabel_index = np.asarray(unlabel_index)
         label_index = np.asarray(label_index)
         num_of_neighbors = n_neighbors
-        if len(unlabel_index) <= 1:
-            return unlabel_index
 
         Q_table = np.zeros((len(oracles), len(unlabel_index)))  # row:oracle, col:ins
         spv = np.shape(pred_unlab)
@@ -413,6 +415,8 @@ class QueryNoisyOraclesSelectInstanceUncertainty(BaseNoisyOracleQuery, metaclass
         selected_oracles: list
             The selected oracles for querying.
         """
+        if len(unlabel_index) == 0:
+            return [], []
         if model is None:
             model = LogisticRegression(solver='liblinear')
             model.fit(self.X[label_index], self.y[label_index])
@@ -447,8 +451,8 @@ class QueryNoisyOraclesSelectInstanceUncertainty(BaseNoisyOracleQuery, metaclass
         assert (isinstance(label_index, collections.Iterable))
         unlabel_index = np.asarray(unlabel_index)
         label_index = np.asarray(label_index)
-        if len(unlabel_index) <= 1:
-            return unlabel_index
+        if len(unlabel_index) == 0:
+            return [], []
 
         # select instance and oracle
         unc = QueryInstanceUncertainty(measure='least_confident')
@@ -530,8 +534,6 @@ class QueryNoisyOraclesIEthresh(QueryNoisyOraclesSelectInstanceUncertainty):
         uia: float
             The UI(a) value.
         """
-        n = len(self._oracles_iterset)
-        t_crit_val = scipy.stats.t.isf([alpha / 2], n - 1)[0]
         reward_arr = []
         for ind in oracle_history.keys():
             if oracle_history[ind] == majority_vote_result[ind]:
@@ -540,6 +542,11 @@ class QueryNoisyOraclesIEthresh(QueryNoisyOraclesSelectInstanceUncertainty):
                 reward_arr.append(0)
         mean_a = np.mean(reward_arr)
         std_a = np.std(reward_arr)
+        # the number of rewards observed from this oracle
+        n = len(reward_arr)
+        if n <= 1:
+            return mean_a
+        t_crit_val = scipy.stats.t.isf([alpha / 2], n - 1)[0]
         uia = mean_a + t_crit_val * std_a / np.sqrt(n)
         return uia
 
@@ -611,7 +618,7 @@ class QueryNoisyOraclesAll(QueryNoisyOraclesSelectInstanceUncertainty):
         oracles_ind: list
             The indexes of selected oracles.
         """
-        return self._oracle_ind_name_dict.values()
+        return list(self._oracle_ind_name_dict.values())
 
 
 class QueryNoisyOraclesRandom(QueryNoisyOraclesSelectInstanceUncertainty):
-- 
2.43.0


From ed8653a29d3817fcc39200bfe6bc6b5bd8995027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:58 +0000
Subject: [PATCH 39/55] fix: metrics: zero-one counts, one-error, sample
 weights, distinct thresholds, micro AUC and average precision with ties,
 sparse and list inputs, mismatched shapes

---
 alipy/metrics/performance.py | 238 +++++++++++++----------------------
 1 file changed, 84 insertions(+), 154 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 6864862..ff2ea04 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -9,7 +9,7 @@ Implement classical methods
 from __future__ import division
 
 import numpy as np
-from scipy.sparse import csr_matrix
+from scipy.sparse import csr_matrix, issparse
 from scipy.stats import rankdata
 from sklearn.metrics import f1_score
  
@@ -61,16 +61,41 @@ def check_consistent_length(*arrays):
                          " samples: %r" % [int(l) for l in lengths])
 
 
+def _dense(y):
+    """The array of an array-like or sparse matrix."""
+    return y.toarray() if issparse(y) else np.asarray(y)
+
+
+def _check_label_matrices(y_true, y_score, sample_weight=None):
+    """Check the input of the label ranking metrics.
+
+    Returns
+    -------
+    y_true : array, shape = [n_samples, n_labels]
+        1 for the relevant labels, 0 for the others.
+
+    y_score : array, shape = [n_samples, n_labels]
+    """
+    y_true = _dense(y_true)
+    y_score = _dense(y_score)
+    check_consistent_length(y_true, y_score, sample_weight)
+    if y_true.shape != y_score.shape:
+        raise ValueError("y_true and y_score have different shape")
+    if len(np.unique(y_true)) > 2:
+        raise ValueError("y_true should have two values, relevant or not")
+    return (y_true > 0).astype(int), y_score
+
+
 def type_of_target(y):
     """Determine the type of data indicated by the target.
     """
-    y = np.asarray(y)
+    y = _dense(y)
     if(len(np.unique(y)) <= 2):
         if(y.ndim >= 2 and len(y[0]) > 1):
             return 'multilabel'
         else:
             return 'binary'
-    elif(len(np.unique(y)) > 2) or (y.ndim >= 2 and len(y[0]) > 1):
+    elif y.ndim < 2 or len(y[0]) == 1:
         return 'multiclass'
     return 'unknown'
         
@@ -255,10 +280,8 @@ def zero_one_loss(y_true, y_pred, normalize=True, sample_weight=None):
         return 1 - score
     else:
         if sample_weight is not None:
-            n_samples = np.sum(sample_weight)
-        else:
-            n_samples = _num_samples(y_true)
-        return n_samples - score
+            return (1 - score) * np.sum(sample_weight)
+        return int(round((1 - score) * _num_samples(y_true)))
 
 
 # def f1_score(y_true, y_pred, pos_label=1, sample_weight=None):
@@ -295,7 +318,7 @@ def zero_one_loss(y_true, y_pred, normalize=True, sample_weight=None):
 #     return 2 * (p * r) / (p + r)
 
 
-def get_fps_tps_thresholds(y_true, y_score, pos_label=None):
+def get_fps_tps_thresholds(y_true, y_score, pos_label=None, sample_weight=None):
     '''
     Calculate true and false positives per binary classification threshold.
 
@@ -330,7 +353,14 @@ def get_fps_tps_thresholds(y_true, y_score, pos_label=None):
     thresholds : array, shape = [n_thresholds]
         Decreasing score values.
     '''
-    check_consistent_length(y_true, y_score)
+    check_consistent_length(y_true, y_score, sample_weight)
+    y_true = np.asarray(y_true)
+    y_score = np.asarray(y_score)
+    if y_true.size != len(y_true) or y_score.size != len(y_score):
+        raise ValueError("y_true and y_score should be 1d arrays")
+    y_true = y_true.ravel()
+    y_score = y_score.ravel()
+    weight = np.ones(len(y_true), dtype=int) if sample_weight is None else np.asarray(sample_weight)
     classes = np.unique(y_true)
     if (pos_label is None and
         not (np.array_equal(classes, [0, 1]) or
@@ -342,20 +372,13 @@ def get_fps_tps_thresholds(y_true, y_score, pos_label=None):
     elif pos_label is None:
         pos_label = 1.
     y_true = (y_true == pos_label)
-    desc_score_indices = np.argsort(y_score, kind="mergesort")[::-1]
-    thresholds = np.array(y_score)[desc_score_indices]
-    y_true = np.array(y_true)[desc_score_indices]
-    y_score = np.array(y_score)[desc_score_indices]
+    thresholds = np.unique(y_score)[::-1]
     tps = []
     fps = [] 
     for threshold in thresholds:
-        y_prob = [1 if i >= threshold else 0 for i in y_score]
-        result = [i == j for i, j in zip(y_true, y_prob)]
-        postive = [i == 1 for i in y_prob]
-        tp = [i and j for i, j in zip(result, postive)]
-        fp = [(not i) and j for i, j in zip(result, postive)]
-        tps.append(tp.count(True))
-        fps.append(fp.count(True))
+        postive = y_score >= threshold
+        tps.append(weight[postive & y_true].sum())
+        fps.append(weight[postive & ~y_true].sum())
     return np.array(fps), np.array(tps), thresholds
 
 
@@ -392,7 +415,8 @@ def precision_recall_curve(y_true, y_score, pos_label=None,
         Increasing thresholds on the decision function used to compute
         precision and recall.
     '''
-    fps, tps, thresholds = get_fps_tps_thresholds(y_true, y_score, pos_label=pos_label)
+    fps, tps, thresholds = get_fps_tps_thresholds(y_true, y_score, pos_label=pos_label,
+                                                  sample_weight=sample_weight)
 
     precision = tps / (tps + fps)
     precision[np.isnan(precision)] = 0
@@ -438,7 +462,8 @@ def roc_curve(y_true, y_score, pos_label=None, sample_weight=None):
         fpr and tpr. `thresholds[0]` represents no instances being predicted
         and is arbitrarily set to `max(y_score) + 1`.
     '''
-    fps, tps, thresholds = get_fps_tps_thresholds(y_true, y_score, pos_label=pos_label)
+    fps, tps, thresholds = get_fps_tps_thresholds(y_true, y_score, pos_label=pos_label,
+                                                  sample_weight=sample_weight)
 
     if np.array(tps).size == 0 or fps[0] != 0 or tps[0] != 0:
         # Add an extra threshold position if necessary
@@ -485,7 +510,7 @@ def roc_auc_score(y_true, y_score, pos_label=None, sample_weight=None):
     -------
     auc : float
     """
-    fpr, tpr, _ = roc_curve(y_true, y_score, pos_label=pos_label, sample_weight=None)
+    fpr, tpr, _ = roc_curve(y_true, y_score, pos_label=pos_label, sample_weight=sample_weight)
     return _auc(fpr, tpr)    
 
 
@@ -516,21 +541,25 @@ def hamming_loss(y_true, y_pred):
     """
     y_type, _, _ = _check_targets(y_true, y_pred)
     check_consistent_length(y_true, y_pred)
-    y_true = np.asarray(y_true)
-    y_pred = np.asarray(y_pred)
+    y_true = _dense(y_true)
+    y_pred = _dense(y_pred)
     if y_type.startswith('multilabel'):
+        if y_true.shape != y_pred.shape:
+            raise ValueError("y_true and y_pred have different shape")
         num_samples, num_classses = np.array(y_true).shape
         n_differences = np.sum(y_true != y_pred)
         return n_differences / (num_samples * num_classses)
     elif y_type in ["binary", "multiclass"]:
-        return np.sum(y_true != y_pred) / y_true.shape[0]
+        return np.sum(y_true.ravel() != y_pred.ravel()) / y_true.shape[0]
     else:
         raise ValueError("{0} is not supported".format(y_type))
 
 
 def one_error(y_true, y_pred, sample_weight=None):
     '''
-        Compute the one_error,similar to 0/1-loss.
+        Compute the one_error,similar to 0/1-loss: the fraction of samples
+        whose top-ranked label is not relevant.
+
     Parameters
     ----------
     y_true : array, shape = [n_samples] or [n_samples, n_classes]
@@ -548,14 +577,12 @@ def one_error(y_true, y_pred, sample_weight=None):
     -------
     one_error : float
     '''
-    check_consistent_length(y_true, y_pred, sample_weight)
     y_type = type_of_target(y_true)
-    n_samples, n_labels = y_true.shape
     if y_type != "multilabel":
         raise ValueError("{0} format is not supported".format(y_type))
-    n_differents = np.sum((y_true - y_pred), axis=1) == 0
-
-    return n_differents.sum() / n_samples
+    y_true, y_pred = _check_label_matrices(y_true, y_pred, sample_weight)
+    top = np.argmax(y_pred, axis=1)
+    return np.average(y_true[np.arange(len(top)), top] == 0, weights=sample_weight)
 
 
 def coverage_error(y_true, y_score, sample_weight=None):
@@ -584,10 +611,10 @@ def coverage_error(y_true, y_score, sample_weight=None):
     -------
     coverage_error : float
     """
-    check_consistent_length(y_true, y_score, sample_weight)
     y_type = type_of_target(y_true)
     if y_type != "multilabel":
         raise ValueError("{0} format is not supported".format(y_type))
+    y_true, y_score = _check_label_matrices(y_true, y_score, sample_weight)
     y_score_mask = np.ma.masked_array(y_score, mask=np.logical_not(y_true))
     y_min_relevant = y_score_mask.min(axis=1).reshape((-1, 1))
     coverage = (y_score >= y_min_relevant).sum(axis=1)
@@ -625,14 +652,11 @@ def label_ranking_loss(y_true, y_score, sample_weight=None):
            Mining multi-label data. In Data mining and knowledge discovery
            handbook (pp. 667-685). Springer US.
     """
-    check_consistent_length(y_true, y_score, sample_weight)
-
     y_type = type_of_target(y_true)
     if y_type not in ("multilabel",):
         raise ValueError("{0} format is not supported".format(y_type))
 
-    if y_true.shape != y_score.shape:
-        raise ValueError("y_true and y_score have different shape")
+    y_true, y_score = _check_label_matrices(y_true, y_score, sample_weight)
 
     n_samples, n_labels = y_true.shape
 
@@ -689,10 +713,7 @@ def label_ranking_average_precision_score(y_true, y_score, sample_weight=None):
     score : float
 
     """
-    check_consistent_length(y_true, y_score, sample_weight)
-
-    if y_true.shape != y_score.shape:
-        raise ValueError("y_true and y_score have different shape")
+    y_true, y_score = _check_label_matrices(y_true, y_score, sample_weight)
 
     # Handle badly formatted array and the degenerate case with one label
     y_type = type_of_target(y_true)
@@ -712,7 +733,7 @@ def label_ranking_average_precision_score(y_true, y_score, sample_weight=None):
         if (relevant.size == 0 or relevant.size == n_labels):
             # If all labels are relevant or unrelevant, the score is also
             # equal to 1. The label ranking has no meaning.
-            out += 1.
+            out += 1. if sample_weight is None else sample_weight[i]
             continue
 
         scores_i = y_score[i]
@@ -731,51 +752,6 @@ def label_ranking_average_precision_score(y_true, y_score, sample_weight=None):
     return out
 
 
-def find(instance, label1, label2):
-    index1 = []
-    index2 = []
-    for i in range(instance.shape[0]):
-        if instance[i] == label1:
-            index1.append(i)
-        if instance[i] == label2:
-            index2.append(i)
-    return index1, index2
-
-
-def findmax(outputs):
-    Max = -float("inf")    
-    index = 0
-    for i in range(outputs.shape[0]):
-        if outputs[i] > Max:
-            Max = outputs[i]
-            index = i
-    return Max, index
-
-
-def sort(x):
-    temp = np.array(x)
-    length = temp.shape[0]
-    index = []
-    sortX = []
-    for i in range(length):
-        Min = float("inf")
-        Min_j = i
-        for j in range(length):
-            if temp[j] < Min:
-                Min = temp[j]
-                Min_j = j        
-        sortX.append(Min)
-        index.append(Min_j)
-        temp[Min_j] = float("inf")
-    return sortX, index
-
-
-def findIndex(a, b):
-    for i in range(len(b)):
-        if a == b[i]:
-            return i
-
-   
 def micro_auc_score(y_true, y_score, sample_weight=None):
     """
     Compute the micro_auc_score.
@@ -797,9 +773,7 @@ def micro_auc_score(y_true, y_score, sample_weight=None):
     -------
     micro_auc_score : float
     """
-    check_consistent_length(y_true, y_score, sample_weight)
-    if y_true.shape != y_score.shape:
-        raise ValueError("y_true and y_score have different shape")
+    y_true, y_score = _check_label_matrices(y_true, y_score, sample_weight)
 
     # Handle badly formatted array and the degenerate case with one label
     y_type = type_of_target(y_true)
@@ -807,38 +781,10 @@ def micro_auc_score(y_true, y_score, sample_weight=None):
             not (y_type == "binary" and y_true.ndim == 2)):
         raise ValueError("{0} format is not supported".format(y_type))
 
-    test_data_num = y_score.shape[0]
-    class_num = y_score.shape[1]
-    P = []
-    N = []
-    labels_size = []
-    not_labels_size = []
-    AUC = 0
-    for i in range(class_num):
-        P.append([])
-        N.append([])
-    
-    for i in range(test_data_num):
-            for j in range(class_num):
-                if y_true[i][j] == 1:
-                    P[j].append(i)
-                else:
-                    N[j].append(i)
-    
-    for i in range(class_num):
-        labels_size.append(len(P[i]))
-        not_labels_size.append(len(N[i]))
-    
-    for i in range(class_num):
-        auc = 0
-        for j in range(labels_size[i]):
-            for k in range(not_labels_size[i]):
-                pos = y_score[P[i][j]][i]
-                neg = y_score[N[i][k]][i]
-                if pos > neg:
-                    auc = auc + 1
-        AUC = AUC + auc*1.0/(labels_size[i]*not_labels_size[i])
-    return AUC*1.0/class_num
+    # pairs of a relevant and an irrelevant entry of the whole label matrix
+    if sample_weight is not None:
+        sample_weight = np.repeat(sample_weight, y_true.shape[1])
+    return roc_auc_score(y_true.ravel(), y_score.ravel(), sample_weight=sample_weight)
 
 
 def average_precision_score(y_true, y_score, sample_weight=None):
@@ -869,9 +815,7 @@ def average_precision_score(y_true, y_score, sample_weight=None):
     -------
     average_precision : float
     """
-    check_consistent_length(y_true, y_score, sample_weight)
-    if y_true.shape != y_score.shape:
-        raise ValueError("y_true and y_score have different shape")
+    y_true, y_score = _check_label_matrices(y_true, y_score, sample_weight)
 
     # Handle badly formatted array and the degenerate case with one label
     y_type = type_of_target(y_true)
@@ -879,34 +823,20 @@ def average_precision_score(y_true, y_score, sample_weight=None):
             not (y_type == "binary" and y_true.ndim == 2)):
         raise ValueError("{0} format is not supported".format(y_type))
 
-    test_data_num = y_score.shape[0]
-    class_num = y_score.shape[1]
-    temp_outputs = []
-    temp_test_target = []
-    instance_num = 0
-    labels_index = []
-    not_labels_index = []
-    labels_size = []
-    for i in range(test_data_num):
-        if sum(y_true[i]) != class_num and sum(y_true[i]) != 0:
-            instance_num = instance_num + 1
-            temp_outputs.append(y_score[i])
-            temp_test_target.append(y_true[i])
-            labels_size.append(sum(y_true[i] == 1))
-            index1, index2 = find(y_true[i], 1, 0)            
-            labels_index.append(index1)
-            not_labels_index.append(index2)
-    
     aveprec = 0
-    for i in range(instance_num):
-        tempvalue, index = sort(temp_outputs[i])
-        indicator = np.zeros((class_num,))     
-        for j in range(labels_size[i]):
-            loc = findIndex(labels_index[i][j], index)
-            indicator[loc] = 1
+    total_weight = 0
+    for i in range(y_score.shape[0]):
+        relevant = np.flatnonzero(y_true[i])
+        if len(relevant) == 0:
+            # there is no precision-recall curve without a relevant label
+            continue
         summary = 0
-        for j in range(labels_size[i]):
-            loc = findIndex(labels_index[i][j], index)
-            summary = summary + sum(indicator[loc:class_num])*1.0/(class_num-loc)
-        aveprec = aveprec + summary*1.0/labels_size[i]
-    return aveprec*1.0/test_data_num
+        for j in relevant:
+            retrieved = y_score[i] >= y_score[i][j]
+            summary = summary + np.sum(y_true[i][retrieved]) / np.sum(retrieved)
+        weight = 1 if sample_weight is None else sample_weight[i]
+        aveprec = aveprec + weight * summary / len(relevant)
+        total_weight = total_weight + weight
+    if total_weight == 0:
+        raise ValueError("No relevant label in y_true, average precision should be meaningless")
+    return aveprec / total_weight
-- 
2.43.0


From 7c25072121b1e979816b188dd1df099903a552f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:59 +0000
Subject: [PATCH 40/55] fix: helpers: constant columns in StandardScale, small
 integer types, best-n larger than the array, negative counts in randperm,
 unpack of index containers, sparse gaussian kernel

---
 alipy/data_manipulate/datapreprocess.py |  8 ++++++--
 alipy/utils/misc.py                     | 16 +++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/alipy/data_manipulate/datapreprocess.py b/alipy/data_manipulate/datapreprocess.py
index ffc98f1..1d4f6c2 100644
--- a/alipy/data_manipulate/datapreprocess.py
+++ b/alipy/data_manipulate/datapreprocess.py
@@ -70,7 +70,10 @@ def minmax_scale(X, feature_range=(0, 1)):
                             "You may consider to use MaxAbsScaler instead.")
     if not isinstance(X, np.ndarray):
         X = np.asarray(X)
-        
+    if X.dtype.kind in 'iub':
+        # the differences may not fit in a small integer type
+        X = X.astype(float)
+
     data_min = np.nanmin(X, axis=0)
     data_max = np.nanmax(X, axis=0)
     data_dis = data_max - data_min
@@ -111,7 +114,8 @@ def StandardScale(X):
         raise TypeError("X array does not has mean or var methods")
     
     data_mean = X.mean(axis=0)
-    data_var = X.var(axis=0)
+    # a constant column has no variance (not even the one left by rounding)
+    data_var = _handle_zeros_in_scale(np.where(X.max(axis=0) == X.min(axis=0), 0., X.var(axis=0)))
     x_StdS = (X - data_mean) / data_var
 
     return x_StdS
diff --git a/alipy/utils/misc.py b/alipy/utils/misc.py
index 2da4422..0b28812 100644
--- a/alipy/utils/misc.py
+++ b/alipy/utils/misc.py
@@ -8,6 +8,7 @@ import os
 import pickle
 
 import numpy as np
+from scipy.sparse import issparse
 from sklearn.metrics.pairwise import linear_kernel, polynomial_kernel, \
     rbf_kernel
 from sklearn.utils.validation import check_array
@@ -59,6 +60,10 @@ def get_gaussian_kernel_mat(X, sigma=1.0, check_arr=True):
     else:
         if not isinstance(X, np.ndarray):
             X = np.asarray(X)
+    if issparse(X):
+        X = X.toarray()
+    # the squares may not fit in a small integer type
+    X = np.asarray(X, dtype=float)
     n = X.shape[0]
     tmp = np.sum(X ** 2, axis=1).reshape(1, -1)
     return np.exp((-tmp.T.dot(np.ones((1, n))) - np.ones((n, 1)).dot(tmp) + 2 * (X.dot(X.T))) / (2 * (sigma ** 2)))
@@ -99,10 +104,10 @@ def randperm(n, k=None):
 
     if k is None:
         k = end - start + 1
-    if not isinstance(k, int):
+    if not isinstance(k, (int, np.integer)):
         raise TypeError("k must be an int.")
-    if k > end - start + 1:
-        raise ValueError("k should not larger than n[1]-n[0]+1")
+    if k > end - start + 1 or k < 0:
+        raise ValueError("k should not larger than n[1]-n[0]+1, nor negative")
 
     randarr = np.arange(start, end + 1)
     np.random.shuffle(randarr)
@@ -136,7 +141,7 @@ def nlargestarg(a, n):
     assert (n > 0)
     argret = np.argsort(a)
     # ascent
-    return argret[argret.size - n:]
+    return argret[max(0, argret.size - n):]
 
 
 def nsmallestarg(a, n):
@@ -256,7 +261,8 @@ def unpack(*args):
     for arg in args:
         if isinstance(arg, (list, np.ndarray, BaseCollection)):
             if len(arg) == 1:
-                ret_args.append(arg[0])
+                # the element of an index container may not be reached by position
+                ret_args.append(next(iter(arg)))
             else:
                 ret_args.append(arg)
         else:
-- 
2.43.0


From d3959777498af43baabc67ef4e825f556f0b4774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:27 +0000
Subject: [PATCH 41/55] fix: analysers: method order, folds of different
 lengths, initial points of each fold, start point with intervals, shifted
 bands, method names

---
 alipy/experiment/experiment_analyser.py | 95 +++++++++++++------------
 alipy/experiment/state_io.py            |  2 +-
 alipy/utils/interface.py                |  7 +-
 3 files changed, 56 insertions(+), 48 deletions(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index 49a225a..6a76dc2 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -116,8 +116,7 @@ class StateIOContainer:
         elif isinstance(src, str):
             self.__add_fold_from_file(src)
         else:
-            raise TypeError('StateIO object or str is expected, but received:%s' % str(type(src)),
-                            category=UnexpectedParameterWarning)
+            raise TypeError('StateIO object or str is expected, but received:%s' % str(type(src)))
 
     def add_folds(self, folds):
         """Add multiple folds.
@@ -182,7 +181,7 @@ class StateIOContainer:
         if isinstance(extract_keys, str):
             for stateio in self:
                 stateio_line = []
-                if stateio.initial_point is not None:
+                if extract_keys == 'performance' and stateio.initial_point is not None:
                     stateio_line.append(stateio.initial_point)
                 for state in stateio:
                     if extract_keys not in state.keys():
@@ -240,6 +239,7 @@ class _ContentSummary:
         # for stateio object only
         self.batch_flag = False
         self.ip = None
+        self.fold_ips = [None] * self.folds
         self.batch_size = 0
 
         # Only for num of query
@@ -280,14 +280,17 @@ class _ContentSummary:
 
         # get matrix
         ex_data = []
+        self.fold_ips = [result.initial_point for result in method_results]
+        # the curves start before the first query only if all the folds do
+        if all(ip is not None for ip in self.fold_ips):
+            self.ip = self.fold_ips[-1]
         for result in method_results:
-            self.ip = result.initial_point
             one_fold_perf = [result[i].get_value('performance') for i in range(self.effective_length)]
             one_fold_cost = [result[i].get_value('cost') if 'cost' in result[i].keys() else 0 for i in
                              range(self.effective_length)]
             self.cost_inall.append(one_fold_cost)
             if self.ip is not None:
-                one_fold_perf.insert(0, self.ip)
+                one_fold_perf.insert(0, result.initial_point)
             ex_data.append(one_fold_perf)
         mean_ex = np.mean(ex_data, axis=1)
         self.mean = np.mean(mean_ex)
@@ -298,8 +301,9 @@ class _ContentSummary:
         self.effective_length = np.min([len(i) for i in method_results])
         if self.method_type == 1:
             # basic info
-            self.mean = np.mean(method_results)
-            self.std = np.std(method_results)
+            mean_perf_for_each_fold = [np.mean(line[0:self.effective_length]) for line in method_results]
+            self.mean = np.mean(mean_perf_for_each_fold)
+            self.std = np.std(mean_perf_for_each_fold)
         else:
             perf_mat = [[np.sum(tup[1]) for tup in line] for line in method_results]
             cost_mat = [[tup[0] for tup in line] for line in method_results]
@@ -342,7 +346,6 @@ class _NumOfQueryAnalyser(BaseAnalyser):
             raise TypeError('method_results must be one of {list, numpy.ndarray, StateIOContainer}.')
 
     def __add_stateio_container(self, method_name, method_results):
-        self._is_all_stateio = True
         self._data_extracted[method_name] = method_results.extract_matrix()
         self._data_summary[method_name] = _ContentSummary(method_results=method_results.to_list(), method_type=0)
 
@@ -361,7 +364,6 @@ class _NumOfQueryAnalyser(BaseAnalyser):
         assert (isinstance(method_results, (list, np.ndarray)))
         # StateIO object
         # The type must be one of [0,1,2], otherwise, it will raise in that function.
-        self._is_all_stateio = True
         result_type = _type_of_data(method_results)
         if result_type == 0:
             method_container = StateIOContainer(method_name=method_name, method_results=method_results)
@@ -372,8 +374,7 @@ class _NumOfQueryAnalyser(BaseAnalyser):
             # and thus we will not do further checking on it.
             self._data_summary[method_name] = _ContentSummary(method_results=method_results, method_type=result_type)
         elif result_type == 1:
-            self._data_extracted[method_name] = copy.copy(method_results)
-            self._is_all_stateio = False
+            self._data_extracted[method_name] = copy.deepcopy(method_results)
             self._data_summary[method_name] = _ContentSummary(method_results=method_results, method_type=result_type)
         else:
             raise ValueError("The element in each list should be a single performance value.")
@@ -384,18 +385,29 @@ class _NumOfQueryAnalyser(BaseAnalyser):
         1.NaN, Inf etc.
         2.methods_continuity
         """
-        if not self._check_methods_continuity:
+        if not self._check_methods_continuity():
             warnings.warn('Settings among all methods are not the same. The difference will be ignored.',
                           category=ValidityWarning)
         for i in self._data_extracted.keys():
-            if np.isnan(self._data_extracted[i]).any() != 0:
+            data = self._get_aligned_data(i)
+            if np.isnan(data).any() != 0:
                 raise ValueError('NaN is found in methods %s in %s.' % (
-                    i, str(np.argwhere(np.isnan(self._data_extracted[i]) == True))))
-            if np.isinf(self._data_extracted[i]).any() != 0:
+                    i, str(np.argwhere(np.isnan(data) == True))))
+            if np.isinf(data).any() != 0:
                 raise ValueError('Inf is found in methods %s in %s.' % (
-                    i, str(np.argwhere(np.isinf(self._data_extracted[i]) == True))))
+                    i, str(np.argwhere(np.isinf(data) == True))))
         return True
 
+    def _get_aligned_data(self, method_name):
+        """The performances of each fold at the positions that all the folds of the method have."""
+        summary = self._data_summary[method_name]
+        length = summary.effective_length + (summary.ip is not None)
+        data = []
+        for fold, ip in zip(self._data_extracted[method_name], summary.fold_ips):
+            start = 1 if ip is not None and summary.ip is None else 0
+            data.append(fold[start:start + length])
+        return np.asarray(data)
+
     def _check_methods_continuity(self):
         """
         check if all methods have the same batch size, length and folds
@@ -474,30 +486,22 @@ class _NumOfQueryAnalyser(BaseAnalyser):
 
         # plotting
         for i in self._data_extracted.keys():
-            points = np.mean(self._data_extracted[i], axis=0)
-            ori_ponits_len = len(points)
-            if std_area:
-                std_points = np.std(self._data_extracted[i], axis=0)
-            if plot_interval != 1:
-                points = np.asarray([points[point_ind] for point_ind in range(ori_ponits_len) if point_ind % plot_interval == 0])
-                if std_area:
-                    std_points = np.asarray([std_points[point_ind] for point_ind in range(len(std_points)) if point_ind % plot_interval == 0])
-            if x_shift is None:
-                if not self._is_all_stateio or self._data_summary[i].ip is None:
-                    x_shift = 1
-                else:
-                    x_shift = 0
+            data = self._get_aligned_data(i)
+            points = np.mean(data, axis=0)
+            std_points = np.std(data, axis=0)
+            # each method starts at 0 if it has an initial point, the first query is 1 otherwise
+            first = 1 if self._data_summary[i].ip is None else 0
+            x_points = np.arange(len(points)) + (first if x_shift is None else x_shift)
             if start_point is not None:
-                x_shift = 0
-                plt.plot(np.arange(ori_ponits_len+1, step=plot_interval) + x_shift, [start_point] + list(points), label=i)
-                if std_area:
-                    plt.fill_between(np.arange(ori_ponits_len, step=plot_interval) + x_shift + 1, points - std_points, points + std_points,
-                                     interpolate=True, alpha=std_alpha)
-            else:
-                plt.plot(np.arange(ori_ponits_len, step=plot_interval) + x_shift, points, label=i)
-                if std_area:
-                    plt.fill_between(np.arange(ori_ponits_len, step=plot_interval) + x_shift, points - std_points, points + std_points,
-                                     interpolate=True, alpha=std_alpha)
+                x_points = np.arange(len(points)) + 1 + (0 if x_shift is None else x_shift)
+                points = np.insert(points, 0, start_point)
+                std_points = np.insert(std_points, 0, 0)
+                x_points = np.insert(x_points, 0, x_points[0] - 1)
+            plt.plot(x_points[::plot_interval], points[::plot_interval], label=i)
+            if std_area:
+                plt.fill_between(x_points[::plot_interval], (points - std_points)[::plot_interval],
+                                 (points + std_points)[::plot_interval],
+                                 interpolate=True, alpha=std_alpha)
 
         # axis & title
         plt.legend(fancybox=True, framealpha=0.5)
@@ -573,12 +577,10 @@ class _CostEffectiveAnalyser(BaseAnalyser):
             raise TypeError('method_results must be one of {list, numpy.ndarray, StateIOContainer}.')
 
     def __add_stateio_container(self, method_name, method_results):
-        self._is_all_stateio = True
         self._data_extracted[method_name] = method_results.extract_matrix(extract_keys=['cost', 'performance'])
         self._data_summary[method_name] = _ContentSummary(method_results=method_results.to_list(), method_type=0)
 
     def __add_list_result(self, method_name, method_results):
-        self._is_all_stateio = True
         result_type = _type_of_data(method_results)
         if result_type == 0:
             method_container = StateIOContainer(method_name=method_name, method_results=method_results)
@@ -589,8 +591,7 @@ class _CostEffectiveAnalyser(BaseAnalyser):
             # and thus we will not do further checking on it.
             self._data_summary[method_name] = _ContentSummary(method_results=method_results, method_type=result_type)
         elif result_type == 2:
-            self._data_extracted[method_name] = copy.copy(method_results)
-            self._is_all_stateio = False
+            self._data_extracted[method_name] = copy.deepcopy(method_results)
             self._data_summary[method_name] = _ContentSummary(method_results=method_results, method_type=result_type)
         else:
             raise ValueError("Illegal result data in cost sensitive setting is given.\n"
@@ -695,12 +696,12 @@ class _CostEffectiveAnalyser(BaseAnalyser):
 
             if start_point is None:
                 # attempt to infer the start point
-                if not self._is_all_stateio or self._data_summary[i].ip is None:
+                if self._data_summary[i].ip is None:
                     pass
                 else:
                     for fold_num in range(len(y_axis)):
                         x_axis[fold_num].insert(0, 0)
-                        y_axis[fold_num].insert(0, self._data_summary[i].ip)
+                        y_axis[fold_num].insert(0, self._data_summary[i].fold_ips[fold_num])
             else:
                 # Use the specified start point
                 for fold_num in range(len(y_axis)):
@@ -714,6 +715,8 @@ class _CostEffectiveAnalyser(BaseAnalyser):
                     interpolate.interp1d(x=x_axis[fold_num], y=y_axis[fold_num], bounds_error=False, fill_value=0.1))
 
             new_x_axis = np.arange(max([x[0] for x in x_axis]), effective_cost, interplt_interval)
+            # rounding in arange may step over the end of the curves
+            new_x_axis = new_x_axis[new_x_axis <= effective_cost]
             new_y_axis = []
             for fold_num in range(len(y_axis)):
                 new_y_axis.append(intplt_arr[fold_num](new_x_axis))
@@ -724,7 +727,7 @@ class _CostEffectiveAnalyser(BaseAnalyser):
                 std_points = np.std(new_y_axis, axis=0)
             plt.plot(new_x_axis + x_shift, points, label=i)
             if std_area:
-                plt.fill_between(new_x_axis, points - std_points, points + std_points,
+                plt.fill_between(new_x_axis + x_shift, points - std_points, points + std_points,
                                  interpolate=True, alpha=std_alpha)
 
         # axis & title
diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index 8e2800a..34c06ab 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -217,7 +217,7 @@ class StateIO:
             Whether all the states have the same batch size.
         """
         ind_uni = np.unique(
-            [self.__state_list[i].batch_size for i in range(len(self.__state_list) - 1)], axis=0)
+            [state.batch_size for state in self.__state_list[:-1] or self.__state_list], axis=0)
         if len(ind_uni) == 1:
             self.batch_size = ind_uni[0]
             return True
diff --git a/alipy/utils/interface.py b/alipy/utils/interface.py
index 1ec90ec..bb7db68 100644
--- a/alipy/utils/interface.py
+++ b/alipy/utils/interface.py
@@ -243,8 +243,13 @@ class BaseAnalyser(metaclass=ABCMeta):
         # 4. cost
         self._data_summary = dict()
 
+    @property
+    def _is_all_stateio(self):
+        """Whether the results of all methods are given by StateIO objects."""
+        return all(summary.method_type == 0 for summary in self._data_summary.values())
+
     def get_methods_names(self):
-        return self.__data_raw.keys()
+        return self._data_extracted.keys()
 
     def get_extracted_data(self, method_name):
         return self._data_extracted[method_name]
-- 
2.43.0


From 7f431375059397eadb9af583544604956cd08213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:59 +0000
Subject: [PATCH 42/55] fix: MMC counts the relevant labels of each instance
 for both 0/1 and -1/1 labels

---
 alipy/query_strategy/multi_label.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 051a506..44d5358 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -907,11 +907,13 @@ class QueryMultiLabelMMC(BaseIndexQuery):
 
         trnf = np.sort(trnf, axis=1)[:, ::-1]
         trnf /= np.tile(trnf.sum(axis=1).reshape(-1, 1), (1, trnf.shape[1]))
-        if len(np.unique(self.y[label_index].sum(axis=1))) == 1:
+        # the irrelevant labels are 0 or -1
+        num_lbl = (self.y[label_index] > 0).sum(axis=1)
+        if len(np.unique(num_lbl)) == 1:
             lr = DummyClf()
         else:
             lr = self.logistic_regression_
-        lr.fit(trnf, self.y[label_index].sum(axis=1))
+        lr.fit(trnf, num_lbl)
 
         idx_poolf = np.argsort(poolf, axis=1)[:, ::-1]
         poolf = np.sort(poolf, axis=1)[:, ::-1]
-- 
2.43.0


From 4c5b6577ffc25e89a9bd1cca6cc314f147cbe015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:59 +0000
Subject: [PATCH 43/55] fix: LabelRankingModel.fit keeps the initial
 parameters, a non-incremental fit starts from them

---
 alipy/query_strategy/multi_label.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 44d5358..991bf1f 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -142,8 +142,9 @@ class _LabelRankingModel_MatlabVer:
         if len(np.nonzero(targets == 2.0)[0]) == 0:
             targets = np.hstack((targets, 2 * np.ones((targets.shape[0], 1))))
         data = np.asarray(data)
-        B = np.asarray(B)
-        V = np.asarray(V)
+        # the parameters passed in are kept, they are updated in place below
+        B = np.array(B)
+        V = np.array(V)
 
         n, n_class = np.shape(targets)
         row_ind, col_ind = np.nonzero(targets >= 1)
-- 
2.43.0


From 836f8be6fe2feace753e215961a60f1c88a1b129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:59 +0000
Subject: [PATCH 44/55] fix: AURO trains the model which is passed in from
 y_mat

---
 alipy/query_strategy/query_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_type.py b/alipy/query_strategy/query_type.py
index 3f63a30..1a325b5 100644
--- a/alipy/query_strategy/query_type.py
+++ b/alipy/query_strategy/query_type.py
@@ -146,7 +146,7 @@ class QueryTypeAURO(BaseMultiLabelQuery):
                                                          'default model'
             self._lr_model = model
             if not self._lr_model._init_flag:   # not trained
-                lab_data, lab_lab, _ = get_Xy_in_multilabel(index=label_index, X=self.X, y=self.y)
+                lab_data, lab_lab, _ = get_Xy_in_multilabel(index=label_index, X=self.X, y=y_mat)
                 self._lr_model.fit(lab_data, lab_lab)
         else:
             lab_data, lab_lab, _ = get_Xy_in_multilabel(index=label_index, X=self.X, y=y_mat)
-- 
2.43.0


From c6961f168462223209e9468d5b0674f53b215993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:09 +0000
Subject: [PATCH 45/55] fix: matrix completion accepts any value, also nan, in
 the unobserved entries

---
 alipy/query_strategy/query_features.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index 9db25f9..916185d 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -189,8 +189,8 @@ def AFASMC_mask_mc(X, y, mask, **kwargs):
         assert len(ue) == 2
         assert 0 in ue
         assert 1 in ue
-    X_obr = np.zeros((n_samples, n_features))
-    X_obr += obrT * X
+    # the unobserved entries can be anything (e.g., nan)
+    X_obr = np.where(obrT == 1, X, 0.)
     n_samples, n_features = X.shape
     lambda2 /= n_samples
     theta0 = 1
@@ -268,7 +268,7 @@ def AFASMC_mask_mc(X, y, mask, **kwargs):
             if abs(converge_out[k] - converge_out[k - 1]) < (1e-4 * converge_out[k - 1]):
                 break
 
-    return (1 - obrT) * Xmc + obrT * X
+    return np.where(obrT == 1, X, Xmc)
 
 
 class IterativeSVD_mc:
@@ -373,8 +373,9 @@ class IterativeSVD_mc:
             assert 0 in ue
             assert 1 in ue
         missing_mask = 1 - observed_mask
-        # only the observed entries are used
-        X_filled = X * observed_mask
+        # only the observed entries are used, the others can be anything (e.g., nan)
+        X_obr = np.where(observed_mask == 1, X, 0.)
+        X_filled = X_obr
         for i in range(self.max_iters):
             # deviation from original svdImpute algorithm:
             # gradually increase the rank of our approximation
@@ -391,7 +392,7 @@ class IterativeSVD_mc:
                 X_old=X_filled,
                 X_new=X_reconstructed,
                 missing_mask=missing_mask)
-            X_filled = X_reconstructed * missing_mask + X * observed_mask
+            X_filled = X_reconstructed * missing_mask + X_obr
             if converged:
                 break
         return X_filled
-- 
2.43.0


From ca8bb2264df8416415329aa90bb14ee6a90c57a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:35 +0000
Subject: [PATCH 46/55] fix: AFASMC line search ends when the difference is
 rounding error

---
 alipy/query_strategy/query_features.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index 916185d..d6a1967 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -230,7 +230,9 @@ def AFASMC_mask_mc(X, y, mask, **kwargs):
                 Y.flatten())
             ineqR = ineqRtemp + svd_obj_temp.flatten().dot(Z1.flatten()) + L / 2 * sum(sum((Z1 - Y) ** 2))
 
-            while ineqL > ineqR:
+            # the difference is rounding error when Z1 is (almost) equal to Y
+            ineq_tol = 1e-10 * max(1., np.abs(ineqL), np.abs(ineqRtemp))
+            while ineqL > ineqR + ineq_tol:
                 L = L * 2
                 svd_obj = Y - 1 / L * svd_obj_temp
                 Z1, traceNorm = _svd_threshold(svd_obj, lambda1 / L)
-- 
2.43.0


From 0d966eeea7079b3a2b0e7e10760e4a7f0dcfbbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:35 +0000
Subject: [PATCH 47/55] fix: BMDR and SPAL recode labels of any type to 1 and
 -1

---
 alipy/query_strategy/query_labels.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 1e256bb..dfff48c 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -1095,9 +1095,8 @@ class QueryInstanceBMDR(BaseIndexQuery):
             raise ValueError(f"This query strategy is implemented for binary classification only, "
                              f"but {len(ul)} classes are detected.")
         if len(ul) == 2 and {1, -1} != set(ul):
-            y_temp = np.array(copy.deepcopy(self.y))
-            self.y[y_temp == ul[0]] = 1
-            self.y[y_temp == ul[1]] = -1
+            # not in the type of y: bool, unsigned or string labels can not hold -1
+            self.y = np.where(self.y == ul[0], 1, -1)
 
         self._beta = beta
         self._gamma = gamma
@@ -1365,9 +1364,8 @@ class QueryInstanceSPAL(BaseIndexQuery):
             raise ValueError(f"This query strategy is implemented for binary classification only, "
                              f"but {len(ul)} classes are detected.")
         if len(ul) == 2 and {1, -1} != set(ul):
-            y_temp = np.array(copy.deepcopy(self.y))
-            self.y[y_temp == ul[0]] = 1
-            self.y[y_temp == ul[1]] = -1
+            # not in the type of y: bool, unsigned or string labels can not hold -1
+            self.y = np.where(self.y == ul[0], 1, -1)
 
         self._mu = mu
         self._gamma = gamma
-- 
2.43.0


From efeb7e3df0c82f5381b2fe858bf9b5b1b310fa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:35 +0000
Subject: [PATCH 48/55] fix: BMDR and SPAL minimise the distance of the means,
 P already holds the factor 1/2

---
 alipy/query_strategy/query_labels.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index dfff48c..e3f02fd 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -1207,7 +1207,7 @@ class QueryInstanceBMDR(BaseIndexQuery):
 
             # cvx
             x = cvxpy.Variable(U_len)
-            objective = cvxpy.Minimize(0.5 * cvxpy.quad_form(x, P) + q.T @ x)
+            objective = cvxpy.Minimize(cvxpy.quad_form(x, P) + q.T @ x)
             constraints = [0 <= x, x <= 1, sum(x) == batch_size]
             prob = cvxpy.Problem(objective, constraints)
             # The optimal objective value is returned by `prob.solve()`.
@@ -1217,7 +1217,7 @@ class QueryInstanceBMDR(BaseIndexQuery):
             except cvxpy.error.DCPError:
                 # cvx
                 x = cvxpy.Variable(U_len)
-                objective = cvxpy.Minimize(0.5 * cvxpy.quad_form(x, P) + q.T @ x)
+                objective = cvxpy.Minimize(cvxpy.quad_form(x, P) + q.T @ x)
                 constraints = [0 <= x, x <= 1]
                 prob = cvxpy.Problem(objective, constraints)
                 # The optimal objective value is returned by `prob.solve()`.
@@ -1231,7 +1231,7 @@ class QueryInstanceBMDR(BaseIndexQuery):
             if not (type(result) == float and result != float('inf') and result != float('-inf')):
                 # cvx
                 x = cvxpy.Variable(U_len)
-                objective = cvxpy.Minimize(0.5 * cvxpy.quad_form(x, P) + q.T @ x)
+                objective = cvxpy.Minimize(cvxpy.quad_form(x, P) + q.T @ x)
                 constraints = [0 <= x, x <= 1]
                 prob = cvxpy.Problem(objective, constraints)
                 # The optimal objective value is returned by `prob.solve()`.
@@ -1483,7 +1483,7 @@ class QueryInstanceSPAL(BaseIndexQuery):
                 KUU)) + a
             # cvx
             x = cvxpy.Variable(U_len)
-            objective = cvxpy.Minimize(0.5 * cvxpy.quad_form(x, P) + q.T @ x)
+            objective = cvxpy.Minimize(cvxpy.quad_form(x, P) + q.T @ x)
             constraints = [0 <= x, x <= 1, es_weight @ x == batch_size]
             prob = cvxpy.Problem(objective, constraints)
             # The optimal objective value is returned by `prob.solve()`.
@@ -1503,7 +1503,7 @@ class QueryInstanceSPAL(BaseIndexQuery):
                 #         KUU)) + a
                 # cvx
                 x = cvxpy.Variable(U_len)
-                objective = cvxpy.Minimize(0.5 * cvxpy.quad_form(x, P) + q.T @ x)
+                objective = cvxpy.Minimize(cvxpy.quad_form(x, P) + q.T @ x)
                 constraints = [0 <= x, x <= 1]
                 prob = cvxpy.Problem(objective, constraints)
                 # The optimal objective value is returned by `prob.solve()`.
-- 
2.43.0


From 70f49e2ba7d6a32157ab12fdae9c48a9dcf2bff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:35 +0000
Subject: [PATCH 49/55] fix: SPAL increases lambda by lambda_pace after each
 query

---
 alipy/query_strategy/query_labels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index e3f02fd..c71dde5 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -1532,6 +1532,7 @@ class QueryInstanceSPAL(BaseIndexQuery):
             dr_largest = nlargestarg(dr_weight * es_weight, batch_size)
             select_ind = np.asarray(unlabel_index)[dr_largest]
             if set(last_round_selected) == set(select_ind) or iter_round > 15:
+                self._lambda += self._lambda_pace
                 return select_ind
             else:
                 last_round_selected = copy.copy(select_ind)
-- 
2.43.0


From 0882700681185dccf3fbc1e3101aaa0e7bf38dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:25 +0000
Subject: [PATCH 50/55] fix: AlExperiment passes qp_solver to BMDR and SPAL

---
 alipy/experiment/al_experiment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index 7db27e1..4b676ad 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -184,17 +184,17 @@ class AlExperiment:
                     beta = kwargs.pop('beta', 1000)
                     gamma = kwargs.pop('gamma', 0.1)
                     rho = kwargs.pop('rho', 1)
+                    self.qp_solver = kwargs.pop('qp_solver', 'ECOS')
                     self._query_function = QueryInstanceBMDR(self._X, self._y, beta, gamma, rho, **kwargs)
-                    self.qp_solver = kwargs.pop('qp_sover', 'ECOS')
                 elif strategy == 'QueryInstanceSPAL':
                     mu = kwargs.pop('mu', 0.1)
                     gamma = kwargs.pop('gamma', 0.1)
                     rho = kwargs.pop('rho', 1)
                     lambda_init = kwargs.pop('lambda_init', 0.1)
                     lambda_pace = kwargs.pop('lambda_pace', 0.01)
+                    self.qp_solver = kwargs.pop('qp_solver', 'ECOS')
                     self._query_function = QueryInstanceSPAL(self._X, self._y, mu, gamma, rho, lambda_init, lambda_pace,
                                                              **kwargs)
-                    self.qp_solver = kwargs.pop('qp_sover', 'ECOS')
                 elif strategy == 'QueryInstanceLAL':
                     mode = kwargs.pop('mode', 'LAL_iterative')
                     data_path = kwargs.pop('data_path', '.')
-- 
2.43.0


From e629f91eb948b5b86a0a6b5d6c2f1d4ec50b8fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:25 +0000
Subject: [PATCH 51/55] fix: AlExperiment passes the arguments given to
 set_performance_metric to the metric

---
 alipy/experiment/al_experiment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index 4b676ad..f35c097 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -227,6 +227,7 @@ class AlExperiment:
 
         self._performance_metric_name = performance_metric
         self._performance_metric = getattr(performance, performance_metric)
+        self._performance_metric_kwargs = kwargs
         self._metrics = True
 
     def set_data_split(self, train_idx, test_idx, label_idx, unlabel_idx):
@@ -387,7 +388,7 @@ class AlExperiment:
             querfunction = copy.deepcopy(self._query_function)
 
         # performance calc
-        perf_result = self._performance_metric(self._y[test_id], pred)
+        perf_result = self._performance_metric(self._y[test_id], pred, **self._performance_metric_kwargs)
 
         # stopping-criterion 
         stopping_criterion = copy.deepcopy(self._stopping_criterion)
@@ -422,7 +423,7 @@ class AlExperiment:
             pred = model.predict(self._X[test_id, :])
 
             # performance calc
-            perf_result = self._performance_metric(self._y[test_id], pred)
+            perf_result = self._performance_metric(self._y[test_id], pred, **self._performance_metric_kwargs)
 
             # save intermediate results
             st = State(select_index=select_ind, performance=perf_result)
-- 
2.43.0


From 025be2760cefe1bd6da4dbf48ef505ba15f0b380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:25 +0000
Subject: [PATCH 52/55] fix: AlExperiment runs the strategy which was set last

---
 alipy/experiment/al_experiment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index f35c097..2394934 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -142,6 +142,9 @@ class AlExperiment:
         # check 
         if self._existed_query_strategy:
             raise Exception("You already has set the query strategy,don`t has to set it again.")
+        # nothing of a strategy which was set before remains
+        self.__custom_strategy_flag = False
+        self._query_function_need_train_ind = False
         # user-defined strategy
         if callable(strategy):
             self.__custom_strategy_flag = True
-- 
2.43.0


From ed7b08326413b9a951f6a9bf119625dad42b83db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:20 +0000
Subject: [PATCH 53/55] fix: Adaptive takes the confidence of any base
 classifier

---
 alipy/query_strategy/multi_label.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 991bf1f..f798fee 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -769,6 +769,11 @@ class _BinaryRelevance():
                     pred[:, i] = pred_value[:, 1]
                 else:
                     pred[:, i] = value[:, 1]
+            elif hasattr(self.clfs_[i], 'decision_function'):
+                value = np.asarray(self.clfs_[i].decision_function(X))
+                pred[:, i] = value if value.ndim == 1 else value[:, 1]
+            else:
+                pred[:, i] = 2 * np.asarray(self.clfs_[i].predict_proba(X))[:, 1] - 1
             # pred[:, i] = self.clfs_[i].predict_real(X)[:, 1]
         return pred
 
-- 
2.43.0


From ef3901f2959d86068128895eff6ce1623ae765c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:42 +0000
Subject: [PATCH 54/55] fix: query by committee whose members saw fewer classes

---
 alipy/query_strategy/query_labels.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index c71dde5..8b7abd9 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -412,7 +412,7 @@ class QueryInstanceQBC(BaseIndexQuery):
         if self.X is None or self.y is None:
             raise Exception('Data matrix is not provided, use select_by_prediction_mat() instead.')
         if model is None:
-            model = LogisticRegression(solver='liblinear')
+            model = LogisticRegression()   # liblinear drops the classes missing in a weighted sample
             model.fit(self.X[label_index],
                       self.y[label_index])
 
@@ -435,7 +435,17 @@ class QueryInstanceQBC(BaseIndexQuery):
         if self._disagreement == 'vote_entropy':
             score = self.calc_vote_entropy([estimator.predict(unlabel_x) for estimator in est_arr])
         else:
-            score = self.calc_avg_KL_divergence([estimator.predict_proba(unlabel_x) for estimator in est_arr])
+            predict = []
+            for estimator in est_arr:
+                pv = np.asarray(estimator.predict_proba(unlabel_x))
+                classes = getattr(estimator, 'classes_', [])
+                if pv.shape[1] == len(classes) < bagging.n_classes_:
+                    # the bootstrap sample lacked a class: its probability is 0 (the members know the classes as 0..n-1)
+                    full_pv = np.zeros((pv.shape[0], bagging.n_classes_))
+                    full_pv[:, classes] = pv
+                    pv = full_pv
+                predict.append(pv)
+            score = self.calc_avg_KL_divergence(predict)
         return unlabel_index[nlargestarg(score, batch_size)]
 
     def select_by_prediction_mat(self, unlabel_index, predict, batch_size=1):
-- 
2.43.0


From fa4dec103665ff89afee449cdf4e75266eeeed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:05 +0000
Subject: [PATCH 55/55] fix: matrix completion of data with fewer instances
 than features (eigh for a symmetric matrix)

---
 alipy/query_strategy/query_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index d6a1967..05c7c91 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -56,7 +56,7 @@ def _svd_threshold(svd_obj, lambdadL):
     eig_obj_timer = 1e20
     while (eig_tag == 0) and (eig_obj_timer >= 1e8):
         try:
-            D, V = np.linalg.eig(eig_obj2)
+            D, V = np.linalg.eigh(eig_obj2)
             sorted_args = np.argsort(D)
             V = V[:, sorted_args]
             D = D[sorted_args]
-- 
2.43.0

