From f590797a477d98da9b89cbca3d2b559a03f4a187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:01 +0000
Subject: [PATCH 01/51] fix: restore the typing import glued onto the license
 comment of dsm/polytope.py (package could not be imported)

---
 aideme/active_learning/dsm/polytope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 6b524a5..474c6c4 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -9,7 +9,8 @@
 #    TO THE WARRANTIES OF MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND NON-INFRINGEMENT. IN NO EVENT SHALL
 #    THE AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION OF
 #    CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
-#    IN THE SOFTWARE.from typing import Set, List, Tuple
+#    IN THE SOFTWARE.
+from typing import Set, List, Tuple
 
 import numpy as np
 
-- 
2.43.0


From cda3fabac8703828e2fd1f14fd50152959b0f7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:02 +0000
Subject: [PATCH 02/51] fix: move_to_unknown must move the row of the index,
 not the row numbered like the index

---
 aideme/explore/partitioned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index a81d7d0..220b2cb 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -110,7 +110,7 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             pos = self.__index_to_row[idx]
 
             if pos < self.__unknown_start:
-                self.__move_right(idx, to_unknown=True)
+                self.__move_right(pos, to_unknown=True)
             else:
                 self.__raise_error(idx, pos, 'unknown')
 
-- 
2.43.0


From 32591d9c7962fc50a5b236770332e062006755b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:02 +0000
Subject: [PATCH 03/51] fix: reject invalid partition moves before moving
 anything, and do not iterate over a live view of the index

---
 aideme/explore/partitioned.py | 43 +++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index 220b2cb..213f0be 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -13,7 +13,7 @@
 
 from __future__ import annotations
 
-from typing import Iterable, Tuple, Optional, Sequence, TYPE_CHECKING
+from typing import Callable, Iterable, List, Tuple, Optional, Sequence, TYPE_CHECKING
 
 import numpy as np
 import sklearn.utils
@@ -77,42 +77,55 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         Move indexes to LABELED partition, and store its labels. Throws exception if any index is already in this partition.
         :param labeled_set: LabeledSet instance containing the labels and indexes of points to be moved
         """
-        for idx in labeled_set.index:
-            pos = self.__index_to_row[idx]
+        indexes = self.__check_indexes(labeled_set.index, lambda pos: pos < self.__inferred_start, 'labeled')
+        new_labeled_set = self.__labeled_set.concat(labeled_set)
 
-            if pos >= self.__inferred_start:
-                self.__move_left(pos, to_labeled=True)
-            else:
-                self.__raise_error(idx, pos, 'labeled')
+        for idx in indexes:
+            self.__move_left(self.__index_to_row[idx], to_labeled=True)
 
         self.__last_user_labeled_set = labeled_set
-        self.__labeled_set = self.__labeled_set.concat(labeled_set)
+        self.__labeled_set = new_labeled_set
 
     def move_to_inferred(self, indexes: Iterable) -> None:
         """
         Move indexes to INFERRED partition. Throws exception if any index is already in this partition.
         """
+        indexes = self.__check_indexes(indexes, lambda pos: self.__inferred_start <= pos < self.__unknown_start, 'inferred')
+
         for idx in indexes:
             pos = self.__index_to_row[idx]
 
             if pos >= self.__unknown_start:
                 self.__move_left(pos, to_labeled=False)
-            elif pos < self.__inferred_start:
-                self.__move_right(pos, to_unknown=False)
             else:
-                self.__raise_error(idx, pos, 'inferred')
+                self.__move_right(pos, to_unknown=False)
 
     def move_to_unknown(self, indexes: Iterable) -> None:
         """
         Move indexes to UNKNOWN partition. Throws exception if any index is already in this partition.
         """
+        indexes = self.__check_indexes(indexes, lambda pos: pos >= self.__unknown_start, 'unknown')
+
+        for idx in indexes:
+            self.__move_right(self.__index_to_row[idx], to_unknown=True)
+
+    def __check_indexes(self, indexes: Iterable, is_in_partition: Callable[[int], bool], partition_name: str) -> List:
+        """
+        Checks all indexes before any of them is moved, so that a rejected call leaves the partitioning unchanged.
+        :return: a copy of the indexes, since 'indexes' may be a view of the dataset index, which changes with every move
+        """
+        indexes = list(indexes)
+        seen = set()
+
         for idx in indexes:
             pos = self.__index_to_row[idx]
 
-            if pos < self.__unknown_start:
-                self.__move_right(pos, to_unknown=True)
-            else:
-                self.__raise_error(idx, pos, 'unknown')
+            if is_in_partition(pos) or idx in seen:
+                self.__raise_error(idx, pos, partition_name)
+
+            seen.add(idx)
+
+        return indexes
 
     def __move_left(self, pos: int, to_labeled: bool) -> None:
         if pos >= self.__unknown_start:
-- 
2.43.0


From a009e88f410028a0564220cc0ec5aa77618b5bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:03 +0000
Subject: [PATCH 04/51] fix: forget the labels of points moved out of the
 LABELED partition

---
 aideme/explore/partitioned.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index 213f0be..4efe42b 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -100,6 +100,8 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             else:
                 self.__move_right(pos, to_unknown=False)
 
+        self.__drop_removed_labels()
+
     def move_to_unknown(self, indexes: Iterable) -> None:
         """
         Move indexes to UNKNOWN partition. Throws exception if any index is already in this partition.
@@ -109,6 +111,15 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         for idx in indexes:
             self.__move_right(self.__index_to_row[idx], to_unknown=True)
 
+        self.__drop_removed_labels()
+
+    def __drop_removed_labels(self) -> None:
+        """
+        Forgets the labels of points removed from the LABELED partition, keeping labels aligned with the data rows.
+        """
+        if len(self.__labeled_set) != self.labeled_size:
+            self.__labeled_set = self.__labeled_set.get_index(self.labeled.index)
+
     def __check_indexes(self, indexes: Iterable, is_in_partition: Callable[[int], bool], partition_name: str) -> List:
         """
         Checks all indexes before any of them is moved, so that a rejected call leaves the partitioning unchanged.
-- 
2.43.0


From d2939bfd7a62764b091e694673523fe249768250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:04 +0000
Subject: [PATCH 05/51] fix: predicted user labels must not share the dataset
 index, which changes with every move

---
 aideme/explore/partitioned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index 4efe42b..b57a630 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -306,7 +306,7 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         labels = np.empty(len(self.__dataset.data))
         labels[:self.labeled_size] = self.__labeled_set.labels
         labels[self.labeled_size:] = active_learner.predict(self.unlabeled.data)
-        return LabeledSet(labels, index=self.__dataset.index)
+        return LabeledSet(labels, index=self.__dataset.index.copy())
 
 
 class IndexedDataset:
-- 
2.43.0


From 68fe65943dc64ff72effcc2ea3ec5b851ff7d43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:05 +0000
Subject: [PATCH 06/51] fix: process_callback must not hand out the caller's
 own list, which the manager extends

---
 aideme/utils/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/utils/validation.py b/aideme/utils/validation.py
index 31d3539..7fa9b93 100644
--- a/aideme/utils/validation.py
+++ b/aideme/utils/validation.py
@@ -58,4 +58,4 @@ def process_callback(callback):
     if not all(callable(f) for f in callback):
         raise ValueError("Expected callable or list of callable objects, got {}".format(callback))
 
-    return callback
+    return list(callback)
-- 
2.43.0


From 30e8df22f17980252f4be3e60f2d50944c7f6c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:49 +0000
Subject: [PATCH 07/51] fix: do not judge the convergence of a new run by
 metrics of a previous interrupted run

---
 aideme/explore/explore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/explore/explore.py b/aideme/explore/explore.py
index 8c6af47..a7f23b9 100644
--- a/aideme/explore/explore.py
+++ b/aideme/explore/explore.py
@@ -91,6 +91,7 @@ class PoolBasedExploration:
         set_random_state(seed)
 
         manager.clear()
+        metric_logger.flush()  # a previous run may have been interrupted before cleaning up
 
         while not manager.converged():
             metric_logger.flush()  # avoid overlapping metrics between iterations
-- 
2.43.0


From 5e3c6395dfd037dff7942160139d7cf37975388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 08/51] fix: concatenating to an empty LabeledSet must not
 share the other LabeledSet object, whose partial labels may be set later

---
 aideme/explore/labeledset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/explore/labeledset.py b/aideme/explore/labeledset.py
index 1f0b36c..10131d2 100644
--- a/aideme/explore/labeledset.py
+++ b/aideme/explore/labeledset.py
@@ -78,7 +78,7 @@ class LabeledSet:
 
     def concat(self, labeled_set: LabeledSet) -> LabeledSet:
         if len(self) == 0:
-            return labeled_set
+            return LabeledSet(labeled_set.labels, labeled_set.partial, labeled_set.index)
 
         if len(labeled_set) == 0:
             return self
-- 
2.43.0


From c556a0f14f71747b489d136c5b124d157013a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:52 +0000
Subject: [PATCH 09/51] fix: an exploration must check convergence with its own
 metrics when several generators are consumed in turns

---
 aideme/explore/explore.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aideme/explore/explore.py b/aideme/explore/explore.py
index a7f23b9..f619e27 100644
--- a/aideme/explore/explore.py
+++ b/aideme/explore/explore.py
@@ -100,7 +100,12 @@ class PoolBasedExploration:
             self.__run_single_iter(labeled_set, manager)
 
             metric_logger.log_metrics(manager.get_callback_metrics())
-            yield metric_logger.get_metrics()
+            metrics = metric_logger.get_metrics()
+            yield metrics
+
+            # other explorations may have logged their own metrics in the meantime
+            metric_logger.flush()
+            metric_logger.log_metrics(metrics)
 
         metric_logger.flush()
 
-- 
2.43.0


From 874f1fd4f0b473cdbbef6269119634503e263192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 10/51] fix: QueryByDisagreement must size background labels by
 the actual background sample

---
 aideme/active_learning/query_by_disagreement.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aideme/active_learning/query_by_disagreement.py b/aideme/active_learning/query_by_disagreement.py
index f20f68b..4552841 100644
--- a/aideme/active_learning/query_by_disagreement.py
+++ b/aideme/active_learning/query_by_disagreement.py
@@ -35,15 +35,15 @@ class QueryByDisagreement(ActiveLearner):
         self._learner.fit(X, y)
 
         background_points = data.unlabeled.sample(self._background_sample_size).data
-        X_train = np.r_[X, background_points]
+        X_train = np.r_[X, background_points]  # there may be fewer unlabeled points than the background sample size
 
         sample_weights = np.ones(len(X_train))
-        sample_weights[-self._background_sample_size:] *= self._background_sample_weight
+        sample_weights[len(X):] *= self._background_sample_weight
 
-        y_train = np.r_[y, np.ones(self._background_sample_size)]
+        y_train = np.r_[y, np.ones(len(background_points))]
         self._positively_biased_learner.fit(X_train, y_train, sample_weights)
 
-        y_train[-self._background_sample_size:] = 0
+        y_train[len(X):] = 0
         self._negatively_biased_learner.fit(X_train, y_train, sample_weights)
 
     def predict(self, X: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 04a7d05f66b41af7c63ac81d8a3dafb445d4e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:59 +0000
Subject: [PATCH 11/51] fix: the command line exploration must only accept 0
 and 1 as labels (e.g. '11' was taken as a label)

---
 aideme/explore/command_line_explore.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aideme/explore/command_line_explore.py b/aideme/explore/command_line_explore.py
index 73b45a2..5c2fab2 100644
--- a/aideme/explore/command_line_explore.py
+++ b/aideme/explore/command_line_explore.py
@@ -87,6 +87,10 @@ class CommandLineExploration:
             return False, None
 
         vals = s.split()
+        if not set(vals).issubset({'0', '1'}):
+            print("Invalid label: labels must be either 0 or 1, separated by spaces.\n")
+            return False, None
+
         if len(vals) != expected_size:
             print('Incorrect number of labels: got {} but expected {}\n'.format(len(vals), expected_size))
             return False, None
-- 
2.43.0


From 47bf415367e7356ebbe2c6b6dfb9661c73c32dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:59 +0000
Subject: [PATCH 12/51] fix: np.float no longer exists in numpy, use float
 (categorical polytope and gaussian kernel diagonal)

---
 aideme/active_learning/dsm/polytope.py | 2 +-
 aideme/active_learning/kernel.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 474c6c4..e678928 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -226,7 +226,7 @@ class CategoricalPolytope(PolytopeBase):
             return np.full(len(X), fill_value=0.5)
 
         X = np.argmax(X, axis=1)
-        return np.fromiter((self._predict_single(x) for x in X), np.float)
+        return np.fromiter((self._predict_single(x) for x in X), float)
 
     def _predict_single(self, x: np.ndarray) -> float:
         if x in self._pos_classes:
diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 618870a..976f461 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -120,7 +120,7 @@ class GaussianKernel(Kernel):
         :param X: a M x D matrix of data points
         :return: a M-dimensional array K_i = k(X_i, X_i)
         """
-        return np.ones(len(X), dtype=np.float)
+        return np.ones(len(X), dtype=float)
 
 
 class PolynomialKernel(Kernel):
-- 
2.43.0


From fe3e8d06a9f7acdcfa4e62b2d2e85b63e176ce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:11 +0000
Subject: [PATCH 13/51] fix: the command line exploration must not inherit
 learner state or metrics from a previous exploration

---
 aideme/explore/command_line_explore.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aideme/explore/command_line_explore.py b/aideme/explore/command_line_explore.py
index 5c2fab2..3e5b271 100644
--- a/aideme/explore/command_line_explore.py
+++ b/aideme/explore/command_line_explore.py
@@ -15,7 +15,7 @@ from __future__ import annotations
 from typing import Optional, TYPE_CHECKING
 
 from . import LabeledSet, ExplorationManager, PartitionedDataset
-from ..utils import assert_positive_integer, process_callback
+from ..utils import assert_positive_integer, process_callback, metric_logger
 
 if TYPE_CHECKING:
     from ..active_learning import ActiveLearner
@@ -56,6 +56,10 @@ class CommandLineExploration:
             self.convergence_criteria
         )
 
+        # leave behind any state of a previous (possibly interrupted) exploration
+        manager.clear()
+        metric_logger.flush()
+
         print('Welcome to the manual exploration process. \n')
 
         while not manager.converged() and self._is_willing:
-- 
2.43.0


From f3bd5ac91a1c00d8c0971a15074caac53fd4ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:12 +0000
Subject: [PATCH 14/51] fix: a LabeledSet must not share its index with the
 partitioned dataset, which re-orders it in-place

---
 aideme/explore/labeledset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/explore/labeledset.py b/aideme/explore/labeledset.py
index 10131d2..50c96b0 100644
--- a/aideme/explore/labeledset.py
+++ b/aideme/explore/labeledset.py
@@ -58,7 +58,7 @@ class LabeledSet:
         if index is None:
             return np.arange(len(self))
 
-        idx = np.ravel(index)
+        idx = np.array(index).ravel()  # copy: 'index' may be a view of the dataset index, which changes with every move
 
         if len(idx) != len(self):
             raise ValueError("Wrong size of indexes: expected {}, but got {}".format(len(idx), len(self)))
-- 
2.43.0


From dadbeadc0265a2ff33e9689b49422314bb9f56f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:02 +0000
Subject: [PATCH 15/51] fix: a pickled convex cone must keep its own vertex as
 the first point of the hull

---
 aideme/active_learning/dsm/convex/convex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/dsm/convex/convex.py b/aideme/active_learning/dsm/convex/convex.py
index 27d437b..674a66a 100644
--- a/aideme/active_learning/dsm/convex/convex.py
+++ b/aideme/active_learning/dsm/convex/convex.py
@@ -30,10 +30,11 @@ class ConvexHull:
         """
         Since scipy.spatial.ConvexHull objects are not picklable, we choose to serialize the minimum amount of data
         necessary for properly reconstructing the object. More precisely, we pickle both the "tol" parameter and the set
-        of "vertices" composing the convex hull.
+        of "vertices" composing the convex hull. Vertices keep the order in which they were added, since ConvexCone
+        expects its own vertex to be the first point.
         """
         return {
-            'vertices': self.vertices,
+            'vertices': self.hull.points[np.sort(self.hull.vertices)],
             'tol': self.tol
         }
 
-- 
2.43.0


From a343d109765ba09afabc00250f2c5b1dda015436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:04 +0000
Subject: [PATCH 16/51] fix: a polytope update must not lose negative points
 nor swallow arbitrary exceptions (interrupts included)

---
 aideme/active_learning/dsm/polytope.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index e678928..bbc512e 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -10,9 +10,10 @@
 #    THE AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION OF
 #    CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 #    IN THE SOFTWARE.
-from typing import Set, List, Tuple
+from typing import Callable, Set, List, Tuple, Union
 
 import numpy as np
+from scipy.spatial import QhullError
 
 from .convex import PositiveRegion, NegativeCone, ConvexError
 
@@ -88,22 +89,32 @@ class Polytope(PolytopeBase):
         except ConvexError:
             self.__is_valid = False
 
-        finally:
-            return self.__is_valid
+        return self.__is_valid
 
     def __update_positive(self, X: np.ndarray) -> None:
         if len(X) > 0:
-            self.positive_region.update(X)
+            self.__add_points(self.positive_region, self.positive_region.update, X)
 
             for nr in self.negative_region:
-                nr.add_points_to_hull(X)
+                self.__add_points(nr, nr.add_points_to_hull, X)
 
     def __update_negative(self, X: np.ndarray) -> None:
         for x in X:
             cone = NegativeCone(x, self.positive_region._tol)
-            cone.add_points_to_hull(self.positive_region.vertices)
             self.negative_region.append(cone)
 
+            if self.positive_region.vertices is not None:
+                self.__add_points(cone, cone.add_points_to_hull, self.positive_region.vertices)
+
+    @staticmethod
+    def __add_points(region: Union[PositiveRegion, NegativeCone], add_points: Callable, X: np.ndarray) -> None:
+        try:
+            add_points(X)
+        except QhullError:
+            # points are still degenerate (e.g. all in the same line): they were cached, and the region will be built later
+            if region.is_built:
+                raise
+
 
 class FlippedPolytope(PolytopeBase):
     """
-- 
2.43.0


From bde0c72c4bb01e1664378bb9781a186e2cc6fa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:05 +0000
Subject: [PATCH 17/51] fix: a conflict in one polytope must not make the
 others miss the batch of labeled points

---
 aideme/active_learning/dsm/model.py    | 3 ++-
 aideme/active_learning/dsm/polytope.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/dsm/model.py b/aideme/active_learning/dsm/model.py
index 961fbf9..9c25a27 100644
--- a/aideme/active_learning/dsm/model.py
+++ b/aideme/active_learning/dsm/model.py
@@ -96,7 +96,8 @@ class FactorizedPolytopeModel(PolytopeModelBase):
         if not self.is_valid:
             raise RuntimeError("Cannot update invalid polytope.")
 
-        return all(pol.update(X[:, idx], y[:, i]) for i, idx, pol in self.__valid_elements())
+        # all subspaces must receive the data, even if one of them finds a conflict
+        return all([pol.update(X[:, idx], y[:, i]) for i, idx, pol in self.__valid_elements()])
 
     def predict(self, X: np.ndarray) -> np.ndarray:
         val = 1.0 if self.is_all_valid else 0.5
diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index bbc512e..53ea30a 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -197,7 +197,9 @@ class PersistentPolytope(PolytopeBase):
             raise RuntimeError("Attempting to update invalid polytope.")
 
         if self._pol.is_valid and self._flipped.is_valid:
-            return self._pol.update(X, y) and self._flipped.update(X, y)
+            # both models must receive the data, even if one of them finds a conflict
+            is_success, is_flipped_success = self._pol.update(X, y), self._flipped.update(X, y)
+            return is_success and is_flipped_success
 
         if self._pol.is_valid:
             return self._pol.update(X, y)
-- 
2.43.0


From 40da9cc89a6d1b23efcd00e835cc01d2c87110f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:06 +0000
Subject: [PATCH 18/51] fix: a negative point containing only positive items is
 a conflict in the multiset polytope

---
 aideme/active_learning/dsm/polytope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 53ea30a..8af25a9 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -344,6 +344,9 @@ class MultiSetPolytope(PolytopeBase):
             return self.__update_positive_set(idx)
 
         idx -= self._pos_indexes
+        if len(idx) == 0:  # all items of this negative point are known to be positive
+            return False
+
         if len(idx) == 1:
             return self.__update_negative_set(idx)
 
-- 
2.43.0


From ce7ce13c8032824a303744882bca9c084d76c1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 19/51] fix: after a conflict, drop the labels cached by the
 DSM which the polytope model now contradicts

---
 aideme/active_learning/dsm/base.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/dsm/base.py b/aideme/active_learning/dsm/base.py
index 1379c0e..f28d551 100644
--- a/aideme/active_learning/dsm/base.py
+++ b/aideme/active_learning/dsm/base.py
@@ -67,10 +67,10 @@ class DualSpaceModelBase(ActiveLearner):
         if self._dsm_labeled_cache.is_empty:
             return
 
-        is_known = self.polytope_model.predict(self._dsm_labeled_cache.X) != 0.5
+        is_correct = self.polytope_model.predict(self._dsm_labeled_cache.X) == self._dsm_labeled_cache.y
 
-        if not np.all(is_known):
-            self._dsm_labeled_cache.filter(is_known)
+        if not np.all(is_correct):
+            self._dsm_labeled_cache.filter(is_correct)
             self.__fit_active_learner(data)  # retrain AL since labeled changed
 
     def predict(self, X: np.ndarray) -> np.ndarray:
@@ -163,6 +163,13 @@ class TrainingSetCache:
         """
         return np.vstack(self._X)
 
+    @property
+    def y(self) -> np.ndarray:
+        """
+        :return: the training labels as numpy array
+        """
+        return np.hstack(self._y)
+
     def clear(self) -> None:
         """
         Empties the cache
-- 
2.43.0


From 2ed611bca464b8ec3fa35e6f1721d6563caeec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 20/51] fix: the DSM polytope must also learn from points
 labeled during the initial sampling phase

---
 aideme/active_learning/dsm/model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/model.py b/aideme/active_learning/dsm/model.py
index 9c25a27..7272988 100644
--- a/aideme/active_learning/dsm/model.py
+++ b/aideme/active_learning/dsm/model.py
@@ -25,6 +25,10 @@ if TYPE_CHECKING:
 class PolytopeModelBase(PolytopeBase):
     def __init__(self, factorized: bool):
         self._factorized = factorized
+        self._is_empty = True
+
+    def clear(self) -> None:
+        self._is_empty = True
 
     @staticmethod
     def get_polytope(mode: str, tol: float) -> PolytopeBase:
@@ -41,7 +45,9 @@ class PolytopeModelBase(PolytopeBase):
         raise ValueError('Unknown mode {0}. Available values are: {1}'.format(mode, ['categorical', 'multiset', 'negative', 'persist', 'positive']))
 
     def update_data(self, data: PartitionedDataset) -> bool:
-        X, y = data.last_training_set(get_partial=self._factorized)
+        # the first update must also include all points labeled during the initial sampling phase
+        X, y = data.training_set(get_partial=self._factorized) if self._is_empty else data.last_training_set(get_partial=self._factorized)
+        self._is_empty = False
         return self.update(X, y)
 
 
@@ -55,6 +61,7 @@ class PolytopeModel(PolytopeModelBase):
         return self._pol.is_valid
 
     def clear(self) -> None:
+        super().clear()
         self._pol.clear()
 
     def predict(self, X: np.ndarray) -> np.ndarray:
@@ -89,6 +96,7 @@ class FactorizedPolytopeModel(PolytopeModelBase):
         return all((pol.is_valid for pol in self.polytope_models))
 
     def clear(self) -> None:
+        super().clear()
         for pol in self.polytope_models:
             pol.clear()
 
-- 
2.43.0


From eff00a68aebe40388dba6fb98f087e09b7953d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 21/51] fix: linear factorization learners with a proximal
 optimizer could not be built nor copied

---
 aideme/active_learning/factorization/linear.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 3b5694a..7cd6d71 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -27,8 +27,8 @@ if TYPE_CHECKING:
 class LinearFactorizationLearner:
     def __init__(self, optimizer: OptimizationAlgorithm, penalty_term: Optional[PenaltyTerm] = None, add_bias: bool = True):
         self.optimizer = optimizer
-        self.penalty_term = self.__process_proximal_penalty(penalty_term, optimizer)
         self.add_bias = add_bias
+        self.penalty_term = self.__process_proximal_penalty(penalty_term, optimizer)
         self._weights = None
         self._bias = None
 
@@ -79,8 +79,7 @@ class LinearFactorizationLearner:
         return 0 if self._weights is None else self._weights.shape[0]
 
     def copy(self) -> LinearFactorizationLearner:
-        learner = LinearFactorizationLearner(optimizer=self.optimizer, add_bias=self.add_bias)
-        learner.penalty_term = self.penalty_term
+        learner = LinearFactorizationLearner(optimizer=self.optimizer, penalty_term=self.penalty_term, add_bias=self.add_bias)
 
         learner._weights = self.weights
         if self.add_bias:
-- 
2.43.0


From cfeda9c0032ab253b63e5d26f5f72418f8c637b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 22/51] fix: clearing a SwapLearner must restore the number of
 iterations of its swap model

---
 aideme/active_learning/factorization/active_learning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index de71e14..ec53f2e 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -46,6 +46,7 @@ class SwapLearner(ActiveLearner):
         self._active_learner = active_learner
 
         self._swap_model = swap_model
+        self._swap_max_iter = swap_model.optimizer._max_iter
         self._refining_model = swap_model if refining_model is None else refining_model
         self._swap_iter = swap_iter
         self._num_subspaces = num_subspaces
@@ -69,6 +70,7 @@ class SwapLearner(ActiveLearner):
     def clear(self) -> None:
         self._active_learner.clear()
         self._swap_model.clear()
+        self._swap_model.optimizer._max_iter = self._swap_max_iter  # may have been changed by 'max_iter_adapter'
         self._refining_model.clear()
         if self._fact_model:
             self._fact_model.clear()
-- 
2.43.0


From 4dcd760901f808b16891f22af9c6854075fbbd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:11 +0000
Subject: [PATCH 23/51] fix: SimplifiedSwapLearner must not change the default
 parameters shared by all instances

---
 aideme/active_learning/factorization/active_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index ec53f2e..96a1307 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -300,7 +300,7 @@ class SimplifiedSwapLearner(SwapLearner):
         else:
             params = self.REFINE_CARS if cars else self.REFINE_DEFAULT_PARAMS
         if refine_step_size:
-            params['step_size'] = refine_step_size
+            params = {**params, 'step_size': refine_step_size}  # do not change the parameters of other instances
 
         refined_model_optimizer = self.get_optimizer(use_fista=use_fista, max_iter=refine_max_iter, **params)
         penalty_term = SparseGroupLassoPenalty(l1_penalty=l1_penalty, l2_sqrt_penalty=l2_sqrt_penalty, groups=one_hot_groups)
-- 
2.43.0


From 001285e2f0df4f2367f0b54fcdc5f915257167b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:12 +0000
Subject: [PATCH 24/51] fix: a stable factorization cannot be compatible with
 an unknown user factorization (it crashed the exploration)

---
 aideme/active_learning/factorization/active_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index 96a1307..bda6627 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -239,7 +239,7 @@ class FactorizationManager:
         return self.__fact_count >= self._stable_count
 
     def __is_fact_compatible(self, factorization: List[List[int]]) -> bool:
-        if len(factorization) != len(self._user_fact):
+        if self._user_fact is None or len(factorization) != len(self._user_fact):
             return False
 
         mapping, inv_mapping = {}, {}
-- 
2.43.0


From c5db1510a648cb8ae01940af6bf57d39a104b60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 25/51] fix: an interrupted write of the stan model cache must
 not break every later construction

---
 .../active_learning/version_space/bayesian/stan.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/version_space/bayesian/stan.py b/aideme/active_learning/version_space/bayesian/stan.py
index 10ee34a..dff05b4 100644
--- a/aideme/active_learning/version_space/bayesian/stan.py
+++ b/aideme/active_learning/version_space/bayesian/stan.py
@@ -79,10 +79,20 @@ class StanLogisticRegressionSampler:
         path_to_saved_model = 'stan_models/{}.pkl'.format(prior)
 
         if os.path.isfile(path_to_saved_model):
-            return pickle.load(open(path_to_saved_model, 'rb'))
+            with open(path_to_saved_model, 'rb') as f:
+                return pickle.load(f)
 
         model = StanModel(model_code=self.__parse_prior_options(prior))
-        pickle.dump(model, open(path_to_saved_model, 'wb'))
+
+        # write to a temporary file first, so that an interrupted write never leaves a truncated model behind
+        os.makedirs('stan_models', exist_ok=True)
+        path_to_temp_model = '{}.{}.tmp'.format(path_to_saved_model, os.getpid())
+        with open(path_to_temp_model, 'wb') as f:
+            pickle.dump(model, f)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(path_to_temp_model, path_to_saved_model)
+
         return model
 
     def __parse_prior_options(self, prior: str):
-- 
2.43.0


From b6ad4c9fa8318bd82c862fbe6e278677affe9c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 26/51] fix: RatioMargin must read the classes from the fitted
 classifier (clones have none)

---
 aideme/active_learning/margin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/margin.py b/aideme/active_learning/margin.py
index a522958..215a4bb 100644
--- a/aideme/active_learning/margin.py
+++ b/aideme/active_learning/margin.py
@@ -74,8 +74,8 @@ class RatioMargin(SimpleMargin):
         return -np.array([self.__compute_margin_ratio(clf, x) for x in X])
 
     def __compute_margin_ratio(self, clf, x):
-        margin0 = self.__compute_margin(clf, x, clf.classes_[0])
-        margin1 = self.__compute_margin(clf, x, clf.classes_[1])
+        margin0 = self.__compute_margin(clf, x, self.clf.classes_[0])
+        margin1 = self.__compute_margin(clf, x, self.clf.classes_[1])
 
         if margin0 <= 0 or margin1 <= 0:
             return float('inf')
-- 
2.43.0


From 5307d2a93ca5edbc16dedba429140ecda3320619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 27/51] fix: polytope learners must also learn from points
 labeled during the initial sampling phase

---
 aideme/active_learning/version_space/categorical.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/version_space/categorical.py b/aideme/active_learning/version_space/categorical.py
index e54a5bc..bc2f4b5 100644
--- a/aideme/active_learning/version_space/categorical.py
+++ b/aideme/active_learning/version_space/categorical.py
@@ -23,19 +23,22 @@ class PolytopeLearner(ActiveLearner):
     """
     def __init__(self, pol):
         self.pol = pol
+        self.__is_empty = True
 
     def clear(self):
         """
         Clears polytope model
         """
         self.pol.clear()
+        self.__is_empty = True
 
     def fit_data(self, data):
         """
-        Updates the polytope model with the last user labeled data.
+        Updates the polytope model with the last user labeled data. The first update also includes all points labeled
+        during the initial sampling phase.
         :param data: PartitionedDataset instance
         """
-        X_new, y_new = data.last_training_set()
+        X_new, y_new = data.training_set() if self.__is_empty else data.last_training_set()
         self.__update_polytope(X_new, y_new)
 
     def fit(self, X, y):
@@ -48,6 +51,7 @@ class PolytopeLearner(ActiveLearner):
         self.__update_polytope(X, y)
 
     def __update_polytope(self, X_new, y_new):
+        self.__is_empty = False
         self.pol.update(X_new, y_new)
 
         if not self.pol.is_valid:
-- 
2.43.0


From 7aed292b700f4641bcfdad2881bdd2c0d82089e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 28/51] fix: factorization learners must accept integer labels
 (they crashed the exploration)

---
 aideme/active_learning/factorization/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 7cd6d71..c3337d4 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -159,7 +159,7 @@ class LinearFactorizationLoss:
     def __init__(self, X: np.ndarray, y: np.ndarray, add_bias: bool = True,
                  penalty_term: PenaltyTerm = None, factorization: Optional[List[List[int]]] = None):
         self.X = X
-        self.y = y
+        self.y = np.asarray(y, dtype=float)  # user labels may be integers, but low-level routines only accept floats
         self.add_bias = add_bias
         self.penalty_term = penalty_term
         self.factorization = self.__compute_factorization_matrix(factorization)
-- 
2.43.0


From 0669b9ac26570027f6b8bbb134bd4c55fd39b2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 29/51] fix: metrics logged by other explorations must not
 change the records already handed out

---
 aideme/explore/explore.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/explore/explore.py b/aideme/explore/explore.py
index f619e27..7badc06 100644
--- a/aideme/explore/explore.py
+++ b/aideme/explore/explore.py
@@ -101,7 +101,8 @@ class PoolBasedExploration:
 
             metric_logger.log_metrics(manager.get_callback_metrics())
             metrics = metric_logger.get_metrics()
-            yield metrics
+            metric_logger.flush()  # whatever is logged from now on does not belong to this record
+            yield metrics.copy()
 
             # other explorations may have logged their own metrics in the meantime
             metric_logger.flush()
-- 
2.43.0


From 03eb8faacbd652ae311c1e03f08f726b0c070377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 30/51] fix: appending to a metric must not change the list
 already handed out in an iteration record

---
 aideme/utils/metric_logger.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aideme/utils/metric_logger.py b/aideme/utils/metric_logger.py
index 01d37cb..3c9acfa 100644
--- a/aideme/utils/metric_logger.py
+++ b/aideme/utils/metric_logger.py
@@ -91,8 +91,6 @@ def __get_value(key, value, on_duplicates):
         return value if cur_val is None else cur_val + value
 
     if on_duplicates == 'APPEND':
-        cur_val = __metrics.get(key, [])
-        cur_val.append(value)
-        return cur_val
+        return __metrics.get(key, []) + [value]  # never change a list which was already handed out
 
     raise ValueError("Unknown option {} for on_duplicates. Available options are: 'overwrite', 'sum', or 'append'".format(on_duplicates))
-- 
2.43.0


From 660c4c289a89e4cad8cf2f0d20738dd96f7ed4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:48 +0000
Subject: [PATCH 31/51] fix: updating a convex hull must not fail or crash the
 process over coplanar points

---
 aideme/active_learning/dsm/convex/convex.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/dsm/convex/convex.py b/aideme/active_learning/dsm/convex/convex.py
index 674a66a..32cb5ff 100644
--- a/aideme/active_learning/dsm/convex/convex.py
+++ b/aideme/active_learning/dsm/convex/convex.py
@@ -45,7 +45,7 @@ class ConvexHull:
         self.__set_params(state['vertices'], state['tol'])
 
     def __set_params(self, points: np.ndarray, tol: float):
-        self.hull = scipy.spatial.ConvexHull(points, incremental=True)
+        self.hull = scipy.spatial.ConvexHull(points)
         self.tol = tol
 
     @property
@@ -67,7 +67,11 @@ class ConvexHull:
         :param points: list of points to be added to the convex hull
         """
         points = np.atleast_2d(points)
-        self.hull.add_points(points)
+
+        # Qhull's incremental updates may fail or even crash over coplanar points, so the hull is rebuilt from its vertices.
+        # The first point is always kept, since ConvexCone expects its own vertex to be there.
+        kept_points = self.hull.points[np.union1d(0, self.hull.vertices)]
+        self.__set_params(np.vstack([kept_points, points]), self.tol)
 
     def is_inside(self, points):
         """
-- 
2.43.0


From ca94cb67b7c0ea273d3dcf5b05b4b0de31a8fb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:01 +0000
Subject: [PATCH 32/51] fix: a point answered both positive and negative
 contradicts convexity even if it is a vertex of the hull

---
 aideme/active_learning/dsm/convex/convex.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aideme/active_learning/dsm/convex/convex.py b/aideme/active_learning/dsm/convex/convex.py
index 32cb5ff..8d237bd 100644
--- a/aideme/active_learning/dsm/convex/convex.py
+++ b/aideme/active_learning/dsm/convex/convex.py
@@ -91,6 +91,7 @@ class ConvexCone:
         points = np.atleast_2d(points)
 
         self.vertex = np.asarray(vertex)
+        self.__check_vertex_not_in(points)
         self.convex_hull = ConvexHull(np.vstack([self.vertex, points]), tol)
 
         self.__update_cone_equations()
@@ -101,9 +102,17 @@ class ConvexCone:
         """
         Add new points to the positive region, updating the negative cone equations
         """
+        points = np.atleast_2d(points)
+
+        self.__check_vertex_not_in(points)
         self.convex_hull.add_points(points)  # TODO: can we avoid modifying the entire convex hull every time?
         self.__update_cone_equations()
 
+    def __check_vertex_not_in(self, points):
+        # Qhull cannot tell the cone's vertex from a hull vertex lying at the same position
+        if np.any(np.all(points == self.vertex, axis=1)):
+            raise ConvexError
+
     def __update_cone_equations(self):
         self.equations = self.convex_hull.equations_defining_vertex(0)
 
-- 
2.43.0


From f3fec0837596a3193a7ac5fef47b4f60a6d3c801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 33/51] fix: finding an interior point of the version space
 must not fail over large attribute values

---
 .../version_space/hit_and_run/polyhedral_cone.py            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py b/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py
index 39f9c2f..0d28ef0 100644
--- a/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py
+++ b/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py
@@ -58,9 +58,13 @@ class BoundedPolyhedralCone:
         """
         n, dim = self.A.shape
 
+        # constraints are scale-invariant, but the solver is not: it may fail over large attribute values
+        norms = np.linalg.norm(self.A, axis=1, keepdims=True)
+        A = self.A / np.where(norms > 0, norms, 1)
+
         res = scipy.optimize.linprog(
             c=np.array([1.0] + [0.0] * dim),
-            A_ub=np.hstack([-np.ones(shape=(n, 1)), self.A]),
+            A_ub=np.hstack([-np.ones(shape=(n, 1)), A]),
             b_ub=np.zeros(n),
             bounds=[(None, None)] + [(-1, 1)] * dim,  # type: ignore
             method='revised simplex'
-- 
2.43.0


From 75ba57730afe8844f3e406f9f04c1394268de811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:32 +0000
Subject: [PATCH 34/51] fix: an interrupted rounding must not corrupt the
 cached ellipsoid used by later samples

---
 .../active_learning/version_space/hit_and_run/hit_and_run.py   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/hit_and_run/hit_and_run.py b/aideme/active_learning/version_space/hit_and_run/hit_and_run.py
index 25fb756..aa23957 100644
--- a/aideme/active_learning/version_space/hit_and_run/hit_and_run.py
+++ b/aideme/active_learning/version_space/hit_and_run/hit_and_run.py
@@ -11,6 +11,7 @@
 #    CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 #    IN THE SOFTWARE.
 
+import copy
 from typing import Optional, Dict
 
 import numpy as np
@@ -121,7 +122,7 @@ class HitAndRunSampler:
         d = self.ellipsoid_cache.dim
 
         if new_dim == d:  # linear case: dimension does not grow
-            return self.ellipsoid_cache
+            return copy.deepcopy(self.ellipsoid_cache)  # rounding changes it in-place, and may be interrupted midway
 
         if new_dim != d + 1:
             # TODO: is it possible to perform more general updates?
-- 
2.43.0


From ef223f790e87007f316eda548d8fc338ed975ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:20 +0000
Subject: [PATCH 35/51] fix: BFGS refuses two-dimensional starting points,
 hence every factorization learner

---
 aideme/active_learning/factorization/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/optimization.py b/aideme/active_learning/factorization/optimization.py
index e3eefc7..9070715 100644
--- a/aideme/active_learning/factorization/optimization.py
+++ b/aideme/active_learning/factorization/optimization.py
@@ -98,7 +98,7 @@ class OptimizationAlgorithm:
 class BFGS(OptimizationAlgorithm):
     def minimize(self, x0: np.ndarray, func: Callable, grad: Union[bool, Callable]) -> OptimizeResult:
         jac = lambda x: grad(x).ravel()
-        return minimize(func, x0, jac=jac, callback=self._callback, options={'gtol': self._gtol, 'maxiter': self._max_iter})
+        return minimize(func, x0.ravel(), jac=jac, callback=self._callback, options={'gtol': self._gtol, 'maxiter': self._max_iter})
 
 
 class SearchDirectionOptimizer(OptimizationAlgorithm):
-- 
2.43.0


From 9788e93450bcd2fc52f21a8d9939c8f439169f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 36/51] fix: learners sharing a proximal optimizer or a penalty
 overwrite each other's penalty

---
 .../active_learning/factorization/linear.py   | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index c3337d4..db29a23 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -28,20 +28,21 @@ class LinearFactorizationLearner:
     def __init__(self, optimizer: OptimizationAlgorithm, penalty_term: Optional[PenaltyTerm] = None, add_bias: bool = True):
         self.optimizer = optimizer
         self.add_bias = add_bias
-        self.penalty_term = self.__process_proximal_penalty(penalty_term, optimizer)
+        self.penalty_term = penalty_term
         self._weights = None
         self._bias = None
+        self.__prepare_proximal_optimizer()
 
-    def __process_proximal_penalty(self, penalty_term: PenaltyTerm, optimizer: OptimizationAlgorithm) -> PenaltyTerm:
-        if isinstance(optimizer, ProximalGradientDescent):
-            # In the special case of ProximalGradientDescent algorithm, we must be careful to not mistakenly add
-            # the penalty gradient to the loss function gradient. Additionally, we must be careful to exclude the bias
-            # column from proximal function computations
-            penalty_term.grad = lambda x: 0
-            optimizer.remove_bias_column = self.add_bias
-            optimizer.penalty_term = penalty_term
+    def __prepare_proximal_optimizer(self) -> None:
+        # In the special case of ProximalGradientDescent algorithm, we must be careful to exclude the bias column from
+        # proximal function computations. Also note that the optimizer may be shared by several learners.
+        if self.__is_proximal:
+            self.optimizer.remove_bias_column = self.add_bias
+            self.optimizer.penalty_term = self.penalty_term
 
-        return penalty_term
+    @property
+    def __is_proximal(self) -> bool:
+        return isinstance(self.optimizer, ProximalGradientDescent)
 
     def clear(self) -> None:
         self._weights = None
@@ -98,6 +99,8 @@ class LinearFactorizationLearner:
             num_subspaces = len(factorization)
 
         loss = self._get_loss(X, y, factorization)
+        loss.add_penalty_grad = not self.__is_proximal  # proximal algorithms already take the penalty into account
+        self.__prepare_proximal_optimizer()
         if hasattr(self.optimizer, 'batch_size'):
             loss.set_batch_size(self.optimizer.batch_size)
 
@@ -162,6 +165,7 @@ class LinearFactorizationLoss:
         self.y = np.asarray(y, dtype=float)  # user labels may be integers, but low-level routines only accept floats
         self.add_bias = add_bias
         self.penalty_term = penalty_term
+        self.add_penalty_grad = True
         self.factorization = self.__compute_factorization_matrix(factorization)
         self._batch_size = None
         self._offsets = None
@@ -230,7 +234,7 @@ class LinearFactorizationLoss:
         grad_b, grad_w = self.__compute_grad(X, grad_weights)
 
         # add penalty terms
-        if self.penalty_term is not None:
+        if self.penalty_term is not None and self.add_penalty_grad:
             grad_w += self.penalty_term.grad(weights)
 
         # restrict weights to factorization selection
-- 
2.43.0


From 73c4b7bebad4e1f3994c0fc19f80c7060a65b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:57 +0000
Subject: [PATCH 37/51] fix: a failed iteration of a SwapLearner must not
 count, otherwise a failed swap leaves no model to refine

---
 .../active_learning/factorization/active_learning.py  | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index bda6627..b1a121b 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -99,8 +99,15 @@ class SwapLearner(ActiveLearner):
         return None if self.is_active_learning_phase else self._refining_model
 
     def fit_data(self, data: PartitionedDataset) -> None:
-        self.__it += 1
-
+        it = self.__it
+        try:
+            self.__it = it + 1
+            self.__fit_current_phase(data)
+        except BaseException:
+            self.__it = it  # failed iterations do not count: a failed swap would leave no model to refine
+            raise
+
+    def __fit_current_phase(self, data: PartitionedDataset) -> None:
         if self.is_active_learning_phase:
             self._active_learner.fit_data(data)
 
-- 
2.43.0


From 876a5e20f9388cadbabbbebb8edff03e687ea2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:15 +0000
Subject: [PATCH 38/51] fix: subspaces handed to the factorized model must
 follow the order of the user's partial labels (wrong for cyclic orders)

---
 aideme/active_learning/factorization/active_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index b1a121b..dbfa976 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -262,7 +262,7 @@ class FactorizationManager:
             if i not in mapping:  # subspace is not compatible with any user subspace
                 return False
 
-        self.fact_reindexing = [mapping[i] for i in range(len(mapping))]
+        self.fact_reindexing = [inv_mapping[j] for j in range(len(inv_mapping))]  # same order as the user's partial labels
 
         return True
 
-- 
2.43.0


From 28d06bf73ff68143898a8a0f7a352c648b5dd54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:34 +0000
Subject: [PATCH 39/51] fix: linear factorization learners without bias could
 not be pruned nor handed over by a SwapLearner

---
 aideme/active_learning/factorization/learn.py  | 5 +++--
 aideme/active_learning/factorization/linear.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/factorization/learn.py b/aideme/active_learning/factorization/learn.py
index 49f1073..74603cf 100644
--- a/aideme/active_learning/factorization/learn.py
+++ b/aideme/active_learning/factorization/learn.py
@@ -38,7 +38,7 @@ def prune_irrelevant_subspaces(X: np.ndarray, learner: LinearFactorizationLearne
 
     pruned_learner = learner.copy()
     pruned_learner._weights = learner._weights[relevant_rows]
-    pruned_learner._bias = learner._bias[relevant_rows]
+    pruned_learner._bias = None if learner._bias is None else learner._bias[relevant_rows]  # None: no bias column
 
     return pruned_learner
 
@@ -66,7 +66,8 @@ def compute_factorization_and_partial_labels(dataset: PartitionedDataset, linear
     optimizer = FISTA(step_size=fista_step_size, **global_opt_params)
     penalty = SparseGroupLassoPenalty(l1_penalty=l1_penalty, l2_sqrt_penalty=l2_sqrt_penalty)
     refining_model = LinearFactorizationLearner(optimizer, penalty)
-    refining_model.fit(X, y, linear_model.num_subspaces, x0=linear_model.weight_matrix)
+    x0 = np.hstack([linear_model.weights, linear_model.bias.reshape(-1, 1)])  # the linear model may have no bias column
+    refining_model.fit(X, y, linear_model.num_subspaces, x0=x0)
 
     # Step 2: prune irrelevant subspaces and attributes
     pruned = prune_irrelevant_subspaces(dataset.data, refining_model)
diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index db29a23..efeb3c4 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -59,7 +59,7 @@ class LinearFactorizationLearner:
 
     @property
     def bias(self) -> Optional[np.ndarray]:
-        if self._bias is None:
+        if self._weights is None:
             return None
 
         return self._bias.copy() if self.add_bias else np.zeros(self._weights.shape[0])
-- 
2.43.0


From 238a3cd5dbfc9c0e97fb1b44368cc86e7e09ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 40/51] fix: rounding errors must not turn kernel features into
 NaN, labeling positive training points as negative

---
 aideme/active_learning/version_space/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/kernel.py b/aideme/active_learning/version_space/kernel.py
index f483650..4457d7c 100644
--- a/aideme/active_learning/version_space/kernel.py
+++ b/aideme/active_learning/version_space/kernel.py
@@ -70,7 +70,7 @@ class KernelBayesianLogisticRegression:
             scipy.linalg.solve_triangular(self.__L_train, K.T, lower=True, trans=0, overwrite_b=True)  # inplace L^-1 K
 
             delta = self.kernel.diagonal(X) - np.einsum('ir, ir -> i', K, K)
-            np.sqrt(delta, out=delta)
+            np.sqrt(np.maximum(delta, 0), out=delta)  # rounding errors may lead to (slightly) negative values
 
             K = np.c_[K, delta]  # TODO: how to avoid copying data?
 
-- 
2.43.0


From ba35b8c90d4f24ba4dbb2e9a1c684b95a6cad580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 41/51] fix: the diagonal of the polynomial kernel must agree
 with the kernel itself (version spaces over it crashed or contradicted the
 labels)

---
 aideme/active_learning/kernel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 976f461..4f10440 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -155,7 +155,8 @@ class PolynomialKernel(Kernel):
         :return: a M-dimensional array K_i = k(X_i, X_i)
         """
         sqsum = np.einsum('ir, ir -> i', X, X)
-        return (self.gamma * sqsum + self.coef0) ** (1 / self.degree)
+        gamma = self.gamma if self.gamma is not None else 1 / X.shape[1]
+        return (gamma * sqsum + self.coef0) ** self.degree
 
 
 class IncrementedDiagonalKernel(Kernel):
-- 
2.43.0


From 9f84811f3aab78db882609249b04f85d9187a696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 42/51] fix: a failed fit must not leave a kernel version space
 unable to predict (new factor, but old training data and samples)

---
 aideme/active_learning/version_space/kernel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aideme/active_learning/version_space/kernel.py b/aideme/active_learning/version_space/kernel.py
index 4457d7c..6d856b4 100644
--- a/aideme/active_learning/version_space/kernel.py
+++ b/aideme/active_learning/version_space/kernel.py
@@ -41,18 +41,18 @@ class KernelBayesianLogisticRegression:
         self.__logreg.clear()
 
     def fit(self, X: np.ndarray, y: np.ndarray) -> None:
-        K = self.kernel(X)
+        K, L = self.kernel(X), None
 
         if self.__decompose:
             scipy.linalg.cholesky(K.T, lower=False, overwrite_a=True)  # inplace Cholesky decomposition
 
-            self.__L_train = K
-
+            L = K
             K = np.c_[K, np.zeros(K.shape[0])]
 
         self.__logreg.fit(K, y)
 
-        self.__X_train = X
+        # if fit fails, keep the training data of the current samples
+        self.__X_train, self.__L_train = X, L
 
     def predict(self, X: np.ndarray) -> np.ndarray:
         return self.__logreg.predict(self.__get_kernel_matrix(X))
-- 
2.43.0


From ac250615584ab5a0cb528a8bfbb98afaf12271d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 43/51] fix: an interrupted first update must not make polytope
 learners forget the points of the initial sampling phase

---
 aideme/active_learning/version_space/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/categorical.py b/aideme/active_learning/version_space/categorical.py
index bc2f4b5..393d0f1 100644
--- a/aideme/active_learning/version_space/categorical.py
+++ b/aideme/active_learning/version_space/categorical.py
@@ -51,8 +51,8 @@ class PolytopeLearner(ActiveLearner):
         self.__update_polytope(X, y)
 
     def __update_polytope(self, X_new, y_new):
-        self.__is_empty = False
         self.pol.update(X_new, y_new)
+        self.__is_empty = False  # if the first update is interrupted, the next one must still include all labeled points
 
         if not self.pol.is_valid:
             raise RuntimeError('Found conflicting labels in polytope: {}'.format(self.pol))
-- 
2.43.0


From 85619408410779d0fc1bb1aa1b1c3157376a2f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 44/51] fix: an interrupted first update must not make the DSM
 polytope forget the points of the initial sampling phase

---
 aideme/active_learning/dsm/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/dsm/model.py b/aideme/active_learning/dsm/model.py
index 7272988..2944c86 100644
--- a/aideme/active_learning/dsm/model.py
+++ b/aideme/active_learning/dsm/model.py
@@ -47,8 +47,9 @@ class PolytopeModelBase(PolytopeBase):
     def update_data(self, data: PartitionedDataset) -> bool:
         # the first update must also include all points labeled during the initial sampling phase
         X, y = data.training_set(get_partial=self._factorized) if self._is_empty else data.last_training_set(get_partial=self._factorized)
-        self._is_empty = False
-        return self.update(X, y)
+        is_success = self.update(X, y)
+        self._is_empty = False  # if the first update is interrupted, the next one must still include all labeled points
+        return is_success
 
 
 class PolytopeModel(PolytopeModelBase):
-- 
2.43.0


From d0890dc88ad645138f1ae87652f8784181a89244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 45/51] fix: the documented 'SQUARED' loss of
 SubspatialVersionSpace must be accepted (it crashed the construction)

---
 aideme/active_learning/version_space/subspace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/active_learning/version_space/subspace.py b/aideme/active_learning/version_space/subspace.py
index 19fb8c8..62f2f80 100644
--- a/aideme/active_learning/version_space/subspace.py
+++ b/aideme/active_learning/version_space/subspace.py
@@ -266,6 +266,7 @@ class SubspatialVersionSpace(SubspaceLearner):
         return super()._get_function(loss, {
             'GREEDY': lambda ps: np.prod(1 - 2 * ps * (1 - ps), axis=0),
             'SQUARE': lambda ps: np.square(ps - 0.5).sum(axis=0),
+            'SQUARED': lambda ps: np.square(ps - 0.5).sum(axis=0),
             'PRODUCT': lambda ps: np.abs(ps.prod(axis=0) - 0.5),
         })
 
-- 
2.43.0


From 4aa71c44d1b3915be27913465ebb982cad74879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 46/51] fix: the Laplace approximation used the wrong triangle
 of the Cholesky factor

---
 aideme/active_learning/version_space/bayesian/laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/bayesian/laplace.py b/aideme/active_learning/version_space/bayesian/laplace.py
index 010c971..05f4d3b 100644
--- a/aideme/active_learning/version_space/bayesian/laplace.py
+++ b/aideme/active_learning/version_space/bayesian/laplace.py
@@ -92,7 +92,7 @@ class LaplaceBayesianLogisticRegressionBase:
         self._mean = self._compute_map_estimator(X, y)
 
         H = self._compute_hessian(X, self._mean)
-        self._L = cholesky(H)
+        self._L = cholesky(H, lower=True)
 
     def _compute_map_estimator(self, X, y):
         raise NotImplementedError
-- 
2.43.0


From 601ea79b3754e412948cddb7deb7b28937e7f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 47/51] fix: a failed fit of the Laplace approximation mixed
 the new mode with the old covariance

---
 aideme/active_learning/version_space/bayesian/laplace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/version_space/bayesian/laplace.py b/aideme/active_learning/version_space/bayesian/laplace.py
index 05f4d3b..532e6f8 100644
--- a/aideme/active_learning/version_space/bayesian/laplace.py
+++ b/aideme/active_learning/version_space/bayesian/laplace.py
@@ -89,10 +89,10 @@ class LaplaceBayesianLogisticRegressionBase:
         """
         X = self.__add_intercept(X)
 
-        self._mean = self._compute_map_estimator(X, y)
+        mean = self._compute_map_estimator(X, y)
 
-        H = self._compute_hessian(X, self._mean)
-        self._L = cholesky(H, lower=True)
+        H = self._compute_hessian(X, mean)
+        self._mean, self._L = mean, cholesky(H, lower=True)  # if fit fails, keep the current approximation
 
     def _compute_map_estimator(self, X, y):
         raise NotImplementedError
-- 
2.43.0


From 2e7ea260d2718b03c084d81ece89705d31d97952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 48/51] fix: factorized kernel transformers needed the number
 of components before being fit, and as many points as Nystroem components

---
 aideme/active_learning/kernel.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 4f10440..1d16145 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -297,13 +297,7 @@ class FactorizedKernelTransform(KernelTransformer):
             transformer.fit(X[:, subspace])
 
     def transform(self, X: np.ndarray) -> np.ndarray:
-        K = np.empty((X.shape[0], self.n_components, len(self._factorization)))
-        for k, (transformer, subspace) in enumerate(zip(self._transformers, self._factorization)):
-            K[:, :, k] = transformer.transform(X[:, subspace])
-        return K
+        return np.stack([transformer.transform(X[:, subspace]) for transformer, subspace in zip(self._transformers, self._factorization)], axis=2)
 
     def fit_transform(self, X: np.ndarray) -> np.ndarray:
-        K = np.empty((X.shape[0], self.n_components, len(self._factorization)))
-        for k, (transformer, subspace) in enumerate(zip(self._transformers, self._factorization)):
-            K[:, :, k] = transformer.fit_transform(X[:, subspace])
-        return K
+        return np.stack([transformer.fit_transform(X[:, subspace]) for transformer, subspace in zip(self._transformers, self._factorization)], axis=2)
-- 
2.43.0


From 040f9b33b6c5b6ae381d1daac619bd94fc95287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 49/51] fix: a failed fit of a kernel factorization learner
 paired the old weights with the new data

---
 .../active_learning/factorization/kernel.py   | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/aideme/active_learning/factorization/kernel.py b/aideme/active_learning/factorization/kernel.py
index 32f1981..0993c7a 100644
--- a/aideme/active_learning/factorization/kernel.py
+++ b/aideme/active_learning/factorization/kernel.py
@@ -53,15 +53,18 @@ class KernelFactorizationLearner:
 
     def fit(self, X: np.ndarray, y: np.ndarray, factorization: Union[int, List[List[int]]], retries: int = 1, x0: Optional[np.ndarray] = None):
         if isinstance(factorization, int):
-            self._factorization = None
+            num_subspaces, factorization = factorization, None
         else:
-            self._factorization = factorization
-            factorization = len(factorization)
+            num_subspaces = len(factorization)
 
-        self._kernel_transformer = self._get_kernel_transform()
-        K = self._kernel_transformer.fit_transform(X)
+        kernel_transformer = self._get_kernel_transform(factorization)
+        K = kernel_transformer.fit_transform(X)
 
-        return self.fact_linear.fit(K, y, factorization, retries, x0)
+        result = self.fact_linear.fit(K, y, num_subspaces, retries, x0)
+
+        # if fit fails, keep the training data of the current weights
+        self._kernel_transformer, self._factorization = kernel_transformer, factorization
+        return result
 
     def predict(self, X: np.ndarray) -> np.ndarray:
         return self.fact_linear.predict(self._get_kernel_matrix(X))
@@ -75,8 +78,8 @@ class KernelFactorizationLearner:
     def _get_kernel_matrix(self, X: np.ndarray) -> np.ndarray:
         return self._kernel_transformer.transform(X)
 
-    def _get_kernel_transform(self) -> KernelTransformer:
-        if self._factorization is None:
+    def _get_kernel_transform(self, factorization: Optional[List[List[int]]]) -> KernelTransformer:
+        if factorization is None:
             return self._base_kernel_transform.clone()
 
-        return FactorizedKernelTransform(self._base_kernel_transform, self._factorization)
+        return FactorizedKernelTransform(self._base_kernel_transform, factorization)
-- 
2.43.0


From 8be68a181face4fc10b5318106a8c69ffa8a6347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 50/51] fix: swap learners could not hand their factorization
 to a FactorizedDualSpaceModel ('numerical' mode)

---
 aideme/active_learning/dsm/dsm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aideme/active_learning/dsm/dsm.py b/aideme/active_learning/dsm/dsm.py
index 4d06de7..f78fa24 100644
--- a/aideme/active_learning/dsm/dsm.py
+++ b/aideme/active_learning/dsm/dsm.py
@@ -41,7 +41,10 @@ class FactorizedDualSpaceModel(DualSpaceModelBase, FactorizedActiveLearner):
                  tol: float = 1e-12):
         super().__init__(FactorizedPolytopeModel(partition, mode, tol), active_learner, sample_unknown_proba)
         self.__tol = tol
+        self.__numerical_mode = mode if isinstance(mode, str) else 'persist'
 
     def set_factorization_structure(self, **factorization_info: Any) -> None:
         partition, mode = factorization_info['partition'], factorization_info['mode']
+        if mode == 'numerical':  # general mode of the other factorized learners
+            mode = self.__numerical_mode
         self.polytope_model: PolytopeModelBase = FactorizedPolytopeModel(partition, mode, self.__tol)
-- 
2.43.0


From 1aba99de4fafeef44192f6ca55e441baa335c019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 51/51] fix: a failed update of FLMUncertaintySampler counted
 as an iteration of its penalty schedule

---
 .../factorization/active_learning.py              | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index dbfa976..b74e388 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -380,22 +380,25 @@ class FLMUncertaintySampler(UncertaintySampler):
         self.clf.clear()
 
     def fit_data(self, data):
-        self.__it += 1
+        it = self.__it + 1
 
         X, y = data.training_set()
         x0 = self.clf.weight_matrix
         fact = self.num_subspaces if x0 is None else self.clf.num_subspaces
 
-        if self.max_penalty > 0 and self.__it <= self.penalty_iter:
-            penalty = self.max_penalty * (self.__it / self.penalty_iter)
+        if self.max_penalty > 0 and it <= self.penalty_iter:
+            penalty = self.max_penalty * (it / self.penalty_iter)
             if self.log:
-                penalty = self.max_penalty * np.log(1 + (np.e - 1) * self.__it / self.penalty_iter)
+                penalty = self.max_penalty * np.log(1 + (np.e - 1) * it / self.penalty_iter)
             self.clf.penalty_term.penalty = penalty
 
-        self.clf.fit(X, y, factorization=fact, x0=x0)
+        clf = self.clf.copy()
+        clf.fit(X, y, factorization=fact, x0=x0)
 
         if self.prune:
-            self.clf = prune_irrelevant_subspaces(data.data, self.clf, threshold=0.99)
+            clf = prune_irrelevant_subspaces(data.data, clf, threshold=0.99)
+
+        self.clf, self.__it = clf, it  # an iteration which fails does not count
 
     @staticmethod
     def get_optimizer(step_size: float, max_iter: int):
-- 
2.43.0

