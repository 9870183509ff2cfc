From 5caf999cb4d132ccc6ac18b4a7d739ff6e503b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:54 +0000
Subject: [PATCH 01/32] fix: evaluate each classification score threshold
 independently

The positive mask was and-ed in place across thresholds, so a confusion matrix
or example at one threshold depended on the thresholds listed before it.
---
 src/valor_lite/classification/computation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index eb5b2e2..224333a 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -287,9 +287,11 @@ def compute_pair_classifications(
     )
 
     mask_label_match = np.isclose(gt_labels, pd_labels)
-    mask_score = scores > 1e-9
+    mask_score_nonzero = scores > 1e-9
     for score_idx in range(n_scores):
-        mask_score &= scores >= score_thresholds[score_idx]
+        mask_score = mask_score_nonzero & (
+            scores >= score_thresholds[score_idx]
+        )
         if hardmax:
             mask_score &= winners
 
-- 
2.43.0


From 6c41c4e80536b890852d2a6bbad10b61d7d47fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:54 +0000
Subject: [PATCH 02/32] fix: divide accuracy by the number of datums that pass
 the datum filter

---
 src/valor_lite/classification/evaluator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index b6d9e57..b4ce159 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -593,8 +593,9 @@ class Evaluator:
             raise ValueError("At least one score threshold must be passed.")
 
         n_scores = len(score_thresholds)
-        n_datums = self.info.number_of_datums
-        n_labels = self.info.number_of_labels
+        info = self.get_info(datums=datums)
+        n_datums = info.number_of_datums
+        n_labels = info.number_of_labels
 
         # intermediates
         counts = np.zeros((n_scores, n_labels, 4), dtype=np.uint64)
-- 
2.43.0


From d1bd04d13c77db9559be8d5e2841bd0d94bb6576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:31 +0000
Subject: [PATCH 03/32] fix: always continue the ROC curve from the previous
 point

The origin was dropped when it closed a chunk, and was never emitted for a label
whose highest score is zero, so ROCAUC depended on how the curve was chunked.
---
 src/valor_lite/classification/computation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index 224333a..14156cd 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -59,7 +59,7 @@ def compute_rocauc(
 
         fps = cumulative_fp[mask_pds]
         tps = cumulative_tp[mask_pds]
-        if prev[label_idx, 0] > 0 or prev[label_idx, 1] > 0:
+        if prev[label_idx, 0] != fps[0] or prev[label_idx, 1] != tps[0]:
             fps = np.r_[prev[label_idx, 0], fps]
             tps = np.r_[prev[label_idx, 1], tps]
 
-- 
2.43.0


From 759da65ab99433ae8b54e13edb3ec0daf3bf0bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:08 +0000
Subject: [PATCH 04/32] fix: keep all rows when sorting a multi-file cache into
 memory

The in-memory intermediate has one batch iterator whose first batch is empty, so
the merge stopped before reading anything and the sink came out empty.
---
 src/valor_lite/cache/compute.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/valor_lite/cache/compute.py b/src/valor_lite/cache/compute.py
index 1a1dbf6..89cd083 100644
--- a/src/valor_lite/cache/compute.py
+++ b/src/valor_lite/cache/compute.py
@@ -142,19 +142,19 @@ def sort(
                 table_sort_override=table_sort_override,
             )
     else:
+        # an in-memory sink holds a single table, merge by sorting it globally
         intermediate_sink = MemoryCacheWriter.create(
             schema=sink.schema,
             batch_size=sink.batch_size,
         )
-        _merge(
-            source=source,
-            sink=sink,
-            intermediate_sink=intermediate_sink,
-            batch_size=batch_size,
-            sorting=sorting,
-            columns=columns,
-            table_sort_override=table_sort_override,
-        )
+        for tbl in source.iterate_tables(columns=columns):
+            if table_sort_override is not None:
+                tbl = table_sort_override(tbl)
+            intermediate_sink.write_table(tbl)
+        intermediate_sink.sort_by(sorting)
+        for tbl in intermediate_sink.to_reader().iterate_tables():
+            sink.write_table(tbl)
+        sink.flush()
 
 
 def paginate_index(
-- 
2.43.0


From fa46fd9f085bf3ec0fd714d779d5bfca2eefff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:08 +0000
Subject: [PATCH 05/32] fix: treat a pagination limit of zero as an empty page

---
 src/valor_lite/cache/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/cache/compute.py b/src/valor_lite/cache/compute.py
index 89cd083..df3f54d 100644
--- a/src/valor_lite/cache/compute.py
+++ b/src/valor_lite/cache/compute.py
@@ -170,7 +170,7 @@ def paginate_index(
     Note this function expects unqiue keys to be fragment-aligned.
     """
     total = source.count_rows()
-    limit = limit if limit else total
+    limit = limit if limit is not None else total
 
     # pagination broader than data scope
     if offset == 0 and limit >= total:
-- 
2.43.0


From 1134434eab51c94c4468811001d60327f70a3d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:42 +0000
Subject: [PATCH 06/32] fix: refuse to finalize an object detection loader
 twice

A second call ranked every pair again into the same cache, which doubled the
counts of the evaluator it returned and of the one already handed out.
---
 src/valor_lite/object_detection/evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index 2585e40..ccf687f 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -183,6 +183,8 @@ class Builder:
         self._detailed_writer.flush()
         if self._detailed_writer.count_rows() == 0:
             raise EmptyCacheError()
+        elif self._ranked_writer.count_rows() > 0:
+            raise RuntimeError("data already finalized")
 
         self._detailed_writer.sort_by(
             [
-- 
2.43.0


From fdb4fceb8840637fffcc38084457cf1c72c00e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:42 +0000
Subject: [PATCH 07/32] fix: flush buffered rows before writing a table to an
 in-memory cache

The table overtook rows written before it, unlike in the file-based cache.
---
 src/valor_lite/cache/ephemeral.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index 92c4e5d..c767d9e 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -240,7 +240,9 @@ class MemoryCacheWriter(MemoryCache):
             self._buffer = []
 
         # write batch
-        self.write_table(pa.Table.from_batches([batch]))
+        self._table = pa.concat_tables(
+            [self._table, pa.Table.from_batches([batch])]
+        )
 
     def write_table(
         self,
@@ -254,6 +256,7 @@ class MemoryCacheWriter(MemoryCache):
         table : pa.Table
             A populated table.
         """
+        self.flush()
         self._table = pa.concat_tables([self._table, table])
 
     def flush(self):
-- 
2.43.0


From 07020fce47f15d5a541f432ec2a6f0213dde2af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:42 +0000
Subject: [PATCH 08/32] fix: write columnar data with the schema of the cache

The batch took its column order and inferred types from the caller, which made
later writes fail and lose the rows already buffered.
---
 src/valor_lite/cache/ephemeral.py  | 2 +-
 src/valor_lite/cache/persistent.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index c767d9e..4fc3bf8 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -204,7 +204,7 @@ class MemoryCacheWriter(MemoryCache):
         """
         if not columns:
             return
-        batch = pa.RecordBatch.from_pydict(columns)
+        batch = pa.RecordBatch.from_pydict(columns, schema=self.schema)
         self.write_batch(batch)
 
     def write_batch(
diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 05356a9..13f8009 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -407,7 +407,7 @@ class FileCacheWriter(FileCache):
         """
         if not columns:
             return
-        batch = pa.RecordBatch.from_pydict(columns)
+        batch = pa.RecordBatch.from_pydict(columns, schema=self._schema)
         self.write_batch(batch)
 
     def write_batch(
-- 
2.43.0


From 64359afff5144f175ba6bbafb820b392a7b96a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:42 +0000
Subject: [PATCH 09/32] fix: use the configured compression for every cache
 file

---
 src/valor_lite/cache/persistent.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 13f8009..60bbc1b 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -458,7 +458,11 @@ class FileCacheWriter(FileCache):
             A populated table.
         """
         self.flush()
-        pq.write_table(table, where=self._generate_next_filename())
+        pq.write_table(
+            table,
+            where=self._generate_next_filename(),
+            compression=self._compression,
+        )
 
     def flush(self):
         """Flush the cache buffer."""
@@ -494,7 +498,7 @@ class FileCacheWriter(FileCache):
             tbl = pf.read()
             pf.close()
             sorted_tbl = tbl.sort_by(sorting)
-            pq.write_table(sorted_tbl, file)
+            pq.write_table(sorted_tbl, file, compression=self._compression)
 
     def _generate_next_filename(self) -> Path:
         """Generates next dataset filepath."""
-- 
2.43.0


From 2726c75f4823a8dd21914750e16f6ca7b4df29e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:42 +0000
Subject: [PATCH 10/32] fix: detect overlaps with segmentation masks that were
 trimmed

The remaining pixels of a trimmed mask were not accumulated, so a later mask
could claim them again and the pixels were counted twice.
---
 src/valor_lite/semantic_segmentation/annotation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/valor_lite/semantic_segmentation/annotation.py b/src/valor_lite/semantic_segmentation/annotation.py
index b4170e6..dca417d 100644
--- a/src/valor_lite/semantic_segmentation/annotation.py
+++ b/src/valor_lite/semantic_segmentation/annotation.py
@@ -110,8 +110,7 @@ class Segmentation:
                 mask_overlap_accumulation = (
                     mask_overlap_accumulation | mask_overlap
                 )
-            else:
-                mask_accumulation = mask_accumulation | bitmask.mask
+            mask_accumulation = mask_accumulation | bitmask.mask
         if (
             mask_overlap_accumulation is not None
             and mask_overlap_accumulation.any()
-- 
2.43.0


From a3fad8bd8d0fc7cab8b9d52ef08cd259de08c5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:02 +0000
Subject: [PATCH 11/32] fix: count every segmentation bitmask when several
 share a label

Assigning through repeated label indices kept only the last bitmask, so the
pixels of the others disappeared from the confusion matrix.
---
 .../semantic_segmentation/computation.py      | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/valor_lite/semantic_segmentation/computation.py b/src/valor_lite/semantic_segmentation/computation.py
index 087e57d..c0f7914 100644
--- a/src/valor_lite/semantic_segmentation/computation.py
+++ b/src/valor_lite/semantic_segmentation/computation.py
@@ -47,14 +47,23 @@ def compute_intermediates(
 
     confusion_matrix = np.zeros((n_labels + 1, n_labels + 1), dtype=np.uint64)
     confusion_matrix[0, 0] = background_counts
-    confusion_matrix[
-        np.ix_(groundtruth_labels + 1, prediction_labels + 1)
-    ] = intersection_counts
-    confusion_matrix[0, prediction_labels + 1] = (
-        prediction_counts - intersected_prediction_counts
+    # accumulate as multiple bitmasks may share a label
+    np.add.at(
+        confusion_matrix,
+        np.ix_(groundtruth_labels + 1, prediction_labels + 1),
+        intersection_counts.astype(np.uint64),
     )
-    confusion_matrix[groundtruth_labels + 1, 0] = (
-        groundtruth_counts - intersected_groundtruth_counts
+    np.add.at(
+        confusion_matrix[0, :],
+        prediction_labels + 1,
+        (prediction_counts - intersected_prediction_counts).astype(np.uint64),
+    )
+    np.add.at(
+        confusion_matrix[:, 0],
+        groundtruth_labels + 1,
+        (groundtruth_counts - intersected_groundtruth_counts).astype(
+            np.uint64
+        ),
     )
     return confusion_matrix
 
-- 
2.43.0


From efb201fdedd35e261a8423ff7fb646b21cc537e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:26 +0000
Subject: [PATCH 12/32] fix: report a verdict that is not a string as an
 invalid LLM response

A list or object in place of the verdict raised TypeError out of the evaluator
instead of being retried and reported as an error metric.
---
 src/valor_lite/text_generation/llm/validators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/valor_lite/text_generation/llm/validators.py b/src/valor_lite/text_generation/llm/validators.py
index 83d8735..2e1311b 100644
--- a/src/valor_lite/text_generation/llm/validators.py
+++ b/src/valor_lite/text_generation/llm/validators.py
@@ -59,9 +59,9 @@ def validate_verdicts(
             raise InvalidLLMResponseError(
                 f"LLM response is malformed. Inner dictionaries should only contain keys 'verdict' and 'analysis': {response} "
             )
-        elif (
-            allowed_values is not None
-            and value["verdict"] not in allowed_values
+        elif allowed_values is not None and (
+            not isinstance(value["verdict"], str)
+            or value["verdict"] not in allowed_values
         ):
             raise InvalidLLMResponseError(
                 f"LLM response contains verdicts from outside the allowed set {allowed_values}: {response}"
-- 
2.43.0


From 76b54f0a76c1d286514ecdc9496ae6d054e2f92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:26 +0000
Subject: [PATCH 13/32] fix: score context recall as zero when a ground truth
 has no statements

An empty list of statements is a valid LLM response, and answer relevance scores
it as zero, but context recall raised ZeroDivisionError.
---
 src/valor_lite/text_generation/computation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valor_lite/text_generation/computation.py b/src/valor_lite/text_generation/computation.py
index d1f9bc8..a7bffc6 100644
--- a/src/valor_lite/text_generation/computation.py
+++ b/src/valor_lite/text_generation/computation.py
@@ -310,6 +310,9 @@ def calculate_context_recall(
             context_list=predicted_context,
             groundtruth_statements=groundtruth_statements,
         )
+        if len(verdicts) == 0:
+            scores.append(0.0)
+            continue
         scores.append(
             sum(verdict["verdict"] == "yes" for verdict in verdicts)
             / len(verdicts)
-- 
2.43.0


From ec730da4be68586356eb88cd074760f6fee3330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:08 +0000
Subject: [PATCH 14/32] fix: place a recall of exactly k percent in recall bin
 k

29/50 * 100 evaluates to 57.99..., so the point missed its own bin in the
precision-recall curve and lowered the average precision.
---
 src/valor_lite/object_detection/computation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/valor_lite/object_detection/computation.py b/src/valor_lite/object_detection/computation.py
index ad31932..3c39d11 100644
--- a/src/valor_lite/object_detection/computation.py
+++ b/src/valor_lite/object_detection/computation.py
@@ -480,14 +480,15 @@ def compute_counts(
         where=running_total_count > 0,
         out=precision,
     )
-    recall = np.zeros_like(running_total_count, dtype=np.float64)
+    # multiply before dividing, otherwise 29/50 rounds below its recall bin
+    recall_percent = np.zeros_like(running_total_count, dtype=np.float64)
     np.divide(
-        running_tp_count,
+        running_tp_count * 100.0,
         running_gt_count,
         where=running_gt_count > 0,
-        out=recall,
+        out=recall_percent,
     )
-    recall_index = np.floor(recall * 100.0).astype(np.int32)
+    recall_index = np.floor(recall_percent).astype(np.int32)
 
     # sort precision in descending order
     precision_indices = np.argsort(-precision, axis=1)
-- 
2.43.0


From 61adc84f82c3fe402b5e1f18970052242d25e3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:00 +0000
Subject: [PATCH 15/32] fix: forget the labels of a datum that the cache
 rejects

A datum whose metadata does not fit the schema raised after its labels had been
indexed, which left a gap in the label index and broke a later finalize.
---
 src/valor_lite/classification/loader.py        | 14 +++++++++++++-
 src/valor_lite/object_detection/loader.py      | 13 ++++++++++++-
 src/valor_lite/semantic_segmentation/loader.py | 14 +++++++++++++-
 3 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/valor_lite/classification/loader.py b/src/valor_lite/classification/loader.py
index 52a0380..e76b7a2 100644
--- a/src/valor_lite/classification/loader.py
+++ b/src/valor_lite/classification/loader.py
@@ -36,6 +36,13 @@ class Loader(Builder):
             self._index_to_label[idx] = value
         return idx
 
+    def _drop_labels(self, count: int):
+        """Forget the labels of a datum that was rejected by the cache."""
+        for value, idx in list(self._labels.items()):
+            if idx >= count:
+                del self._labels[value]
+                del self._index_to_label[idx]
+
     def add_data(
         self,
         classifications: list[Classification],
@@ -66,6 +73,7 @@ class Loader(Builder):
 
             # write to cache
             rows = []
+            n_known_labels = len(self._labels)
             gidx = self._add_label(classification.groundtruth)
             max_score_idx = np.argmax(np.array(classification.scores))
             for idx, (plabel, score) in enumerate(
@@ -91,7 +99,11 @@ class Loader(Builder):
                         "match": (gidx == pidx) and pidx >= 0,
                     }
                 )
-            self._writer.write_rows(rows)
+            try:
+                self._writer.write_rows(rows)
+            except Exception:
+                self._drop_labels(n_known_labels)
+                raise
 
             # update datum count
             self._datum_count += 1
diff --git a/src/valor_lite/object_detection/loader.py b/src/valor_lite/object_detection/loader.py
index 9a741b5..6dd4f03 100644
--- a/src/valor_lite/object_detection/loader.py
+++ b/src/valor_lite/object_detection/loader.py
@@ -46,6 +46,12 @@ class Loader(Builder):
             self._labels[value] = idx
         return idx
 
+    def _drop_labels(self, count: int):
+        """Forget the labels of a datum that was rejected by the cache."""
+        for value, idx in list(self._labels.items()):
+            if idx >= count:
+                del self._labels[value]
+
     def _add_data(
         self,
         detections: list[Detection],
@@ -59,6 +65,7 @@ class Loader(Builder):
         ):
             # cache labels and annotation pairs
             datum_idx = self._datum_count
+            n_known_labels = len(self._labels)
             datum_metadata = detection.metadata if detection.metadata else {}
             pairs = []
             if detection.groundtruths:
@@ -189,7 +196,11 @@ class Loader(Builder):
             self._groundtruth_count += len(detection.groundtruths)
             self._prediction_count += len(detection.predictions)
 
-            self._detailed_writer.write_rows(pairs)
+            try:
+                self._detailed_writer.write_rows(pairs)
+            except Exception:
+                self._drop_labels(n_known_labels)
+                raise
 
     def add_bounding_boxes(
         self,
diff --git a/src/valor_lite/semantic_segmentation/loader.py b/src/valor_lite/semantic_segmentation/loader.py
index aa526c7..9b2605b 100644
--- a/src/valor_lite/semantic_segmentation/loader.py
+++ b/src/valor_lite/semantic_segmentation/loader.py
@@ -32,6 +32,13 @@ class Loader(Builder):
             self._index_to_label[idx] = value
         return idx
 
+    def _drop_labels(self, count: int):
+        """Forget the labels of a datum that was rejected by the cache."""
+        for value, idx in list(self._labels.items()):
+            if idx >= count:
+                del self._labels[value]
+                del self._index_to_label[idx]
+
     def add_data(
         self,
         segmentations: list[Segmentation],
@@ -50,6 +57,7 @@ class Loader(Builder):
 
         disable_tqdm = not show_progress
         for segmentation in tqdm(segmentations, disable=disable_tqdm):
+            n_known_labels = len(self._labels)
 
             groundtruth_labels = -1 * np.ones(
                 len(segmentation.groundtruths), dtype=np.int64
@@ -199,7 +207,11 @@ class Loader(Builder):
                     "count": counts[0, 0],
                 }
             )
-            self._writer.write_rows(rows)
+            try:
+                self._writer.write_rows(rows)
+            except Exception:
+                self._drop_labels(n_known_labels)
+                raise
 
             # update datum count
             self._datum_count += 1
-- 
2.43.0


From 8b727d40fef3cdbe6c6ea04bbcc38a9f5da2fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:54 +0000
Subject: [PATCH 16/32] fix: trim overlapping segmentation masks without
 writing into arrays they may share

---
 src/valor_lite/semantic_segmentation/annotation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/semantic_segmentation/annotation.py b/src/valor_lite/semantic_segmentation/annotation.py
index dca417d..1211875 100644
--- a/src/valor_lite/semantic_segmentation/annotation.py
+++ b/src/valor_lite/semantic_segmentation/annotation.py
@@ -93,7 +93,7 @@ class Segmentation:
     def _validate_bitmasks(self, bitmasks: list[Bitmask], key: str):
         mask_accumulation = None
         mask_overlap_accumulation = None
-        for idx, bitmask in enumerate(bitmasks):
+        for bitmask in bitmasks:
             if not isinstance(bitmask, Bitmask):
                 raise ValueError(f"expected 'Bitmask', got '{bitmask}'")
             if self.shape != bitmask.mask.shape:
@@ -106,7 +106,8 @@ class Segmentation:
                 mask_overlap_accumulation = np.zeros_like(mask_accumulation)
             elif np.logical_and(mask_accumulation, bitmask.mask).any():
                 mask_overlap = np.logical_and(mask_accumulation, bitmask.mask)
-                bitmasks[idx].mask[mask_overlap] = False
+                # masks may share memory so avoid trimming in-place
+                bitmask.mask = np.logical_and(bitmask.mask, ~mask_overlap)
                 mask_overlap_accumulation = (
                     mask_overlap_accumulation | mask_overlap
                 )
-- 
2.43.0


From b7a760dc131a42bfdf67538c065377faa4fa398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:45 +0000
Subject: [PATCH 17/32] fix: keep the stored metadata types when loading an
 evaluator so it can be filtered

---
 src/valor_lite/classification/evaluator.py        | 5 ++++-
 src/valor_lite/object_detection/evaluator.py      | 5 ++++-
 src/valor_lite/semantic_segmentation/evaluator.py | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index b4ce159..16da7c3 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -392,7 +392,10 @@ class Evaluator:
         metadata_fields = None
         with open(metadata_path, "r") as f:
             encoded_types = json.load(f)
-            metadata_fields = decode_metadata_fields(encoded_types)
+            metadata_fields = [
+                (name, reader.schema.field(name).type)
+                for name, _ in decode_metadata_fields(encoded_types)
+            ]
 
         return cls(
             reader=reader,
diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index ccf687f..630611d 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -282,7 +282,10 @@ class Evaluator:
         metadata_fields = None
         with open(metadata_path, "r") as f:
             encoded_metadata_types = json.load(f)
-            metadata_fields = decode_metadata_fields(encoded_metadata_types)
+            metadata_fields = [
+                (name, detailed_reader.schema.field(name).type)
+                for name, _ in decode_metadata_fields(encoded_metadata_types)
+            ]
 
         return cls(
             detailed_reader=detailed_reader,
diff --git a/src/valor_lite/semantic_segmentation/evaluator.py b/src/valor_lite/semantic_segmentation/evaluator.py
index 9eb34d1..8828858 100644
--- a/src/valor_lite/semantic_segmentation/evaluator.py
+++ b/src/valor_lite/semantic_segmentation/evaluator.py
@@ -227,7 +227,10 @@ class Evaluator:
         metadata_fields = None
         with open(metadata_path, "r") as f:
             metadata_types = json.load(f)
-            metadata_fields = decode_metadata_fields(metadata_types)
+            metadata_fields = [
+                (name, reader.schema.field(name).type)
+                for name, _ in decode_metadata_fields(metadata_types)
+            ]
 
         return cls(
             reader=reader,
-- 
2.43.0


From 384169579b592cab665ca2581d6817a51db1de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:53 +0000
Subject: [PATCH 18/32] fix: refuse a second finalize of a detection loader
 without predictions as well

---
 src/valor_lite/object_detection/evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index 630611d..75c8294 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -56,6 +56,7 @@ class Builder:
         self._detailed_writer = detailed_writer
         self._ranked_writer = ranked_writer
         self._metadata_fields = metadata_fields
+        self._finalized = False
 
     @classmethod
     def in_memory(
@@ -183,8 +184,9 @@ class Builder:
         self._detailed_writer.flush()
         if self._detailed_writer.count_rows() == 0:
             raise EmptyCacheError()
-        elif self._ranked_writer.count_rows() > 0:
+        elif self._finalized:
             raise RuntimeError("data already finalized")
+        self._finalized = True
 
         self._detailed_writer.sort_by(
             [
-- 
2.43.0


From d1b3ecd86eae1935e049c234aa511b42ee094fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:57 +0000
Subject: [PATCH 19/32] fix: report LLM replies that python cannot decode as
 invalid LLM responses

---
 src/valor_lite/text_generation/llm/utilities.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/valor_lite/text_generation/llm/utilities.py b/src/valor_lite/text_generation/llm/utilities.py
index 1ffd809..4da27de 100644
--- a/src/valor_lite/text_generation/llm/utilities.py
+++ b/src/valor_lite/text_generation/llm/utilities.py
@@ -30,9 +30,9 @@ def trim_and_load_json(text: str) -> dict[str, Any]:
 
     try:
         return json.loads(extracted_text)
-    except json.JSONDecodeError as e:
+    except (ValueError, RecursionError) as e:
         raise InvalidLLMResponseError(
-            f"Evaluation LLM responded with invalid JSON. JSONDecodeError: {str(e)}"
+            f"Evaluation LLM responded with invalid JSON. {type(e).__name__}: {str(e)}"
         )
 
 
@@ -40,4 +40,8 @@ def find_first_signed_integer(text: str) -> int | None:
     match = re.search(r"-?\d+", text)
     if not match:
         return None
-    return int(match.group())
+    try:
+        return int(match.group())
+    except ValueError:
+        # more digits than python is willing to convert
+        return None
-- 
2.43.0


From 591dcfb1a08e58bb47e0a5c02a7e0f044aa99d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:21 +0000
Subject: [PATCH 20/32] fix: classification counts and confusion matrix agree
 on which scores are zero

compute_counts treated scores up to 1e-8 as zero while the confusion
matrix and the examples use 1e-9, so that precision, recall and accuracy
contradicted the matrix for scores in between.
---
 src/valor_lite/classification/computation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index 14156cd..311f914 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -133,7 +133,7 @@ def compute_counts(
     pd_labels = ids[:, 2]
 
     mask_matching_labels = np.isclose(gt_labels, pd_labels)
-    mask_score_nonzero = ~np.isclose(scores, 0.0)
+    mask_score_nonzero = scores > 1e-9
     mask_hardmax = winners > 0.5
     mask_valid_gts = gt_labels >= 0
     mask_valid_pds = pd_labels >= 0
-- 
2.43.0


From 2a58b7c7aae462aadf58738fc694986350e95edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:39 +0000
Subject: [PATCH 21/32] fix: compare label indices exactly

np.isclose has a relative tolerance, so that neighbouring labels counted as
equal once there are more than 100,000 of them.
---
 src/valor_lite/classification/computation.py   | 4 ++--
 src/valor_lite/object_detection/computation.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index 311f914..7dce254 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -132,7 +132,7 @@ def compute_counts(
     gt_labels = ids[:, 1]
     pd_labels = ids[:, 2]
 
-    mask_matching_labels = np.isclose(gt_labels, pd_labels)
+    mask_matching_labels = gt_labels == pd_labels
     mask_score_nonzero = scores > 1e-9
     mask_hardmax = winners > 0.5
     mask_valid_gts = gt_labels >= 0
@@ -286,7 +286,7 @@ def compute_pair_classifications(
         dtype=np.uint8,
     )
 
-    mask_label_match = np.isclose(gt_labels, pd_labels)
+    mask_label_match = gt_labels == pd_labels
     mask_score_nonzero = scores > 1e-9
     for score_idx in range(n_scores):
         mask_score = mask_score_nonzero & (
diff --git a/src/valor_lite/object_detection/computation.py b/src/valor_lite/object_detection/computation.py
index 3c39d11..0ea1989 100644
--- a/src/valor_lite/object_detection/computation.py
+++ b/src/valor_lite/object_detection/computation.py
@@ -210,7 +210,7 @@ def rank_pairs(
     indices = np.where(mask_predictions)[0]
 
     # find best fits for prediction
-    mask_label_match = np.isclose(pairs[:, 3], pairs[:, 4])
+    mask_label_match = pairs[:, 3] == pairs[:, 4]
     matched_predictions = np.unique(pairs[mask_label_match, 2])
 
     mask_unmatched_predictions = ~np.isin(pairs[:, 2], matched_predictions)
@@ -401,7 +401,7 @@ def compute_counts(
 
     mask_score_nonzero = scores > EPSILON
     mask_gt_exists = gt_ids >= 0.0
-    mask_labels_match = np.isclose(gt_labels, pd_labels)
+    mask_labels_match = gt_labels == pd_labels
 
     mask_gt_exists_labels_match = mask_gt_exists & mask_labels_match
 
@@ -739,7 +739,7 @@ def compute_pair_classifications(
 
     mask_gt_exists = gt_ids > -0.5
     mask_pd_exists = pd_ids > -0.5
-    mask_label_match = np.isclose(gt_labels, pd_labels)
+    mask_label_match = gt_labels == pd_labels
     mask_score_nonzero = scores > EPSILON
     mask_iou_nonzero = ious > EPSILON
 
-- 
2.43.0


From e7f5cfeb08eccb13727b9eb869477af398ca5449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:36 +0000
Subject: [PATCH 22/32] fix: refuse reserved metadata fields before creating a
 detection cache

---
 src/valor_lite/object_detection/evaluator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index 75c8294..67989b7 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -117,17 +117,21 @@ class Builder:
         """
         path = Path(path)
 
+        # validate metadata before anything is created
+        detailed_schema = generate_detailed_schema(metadata_fields)
+        ranked_schema = generate_ranked_schema(metadata_fields)
+
         # create caches
         detailed_writer = FileCacheWriter.create(
             path=generate_detailed_cache_path(path),
-            schema=generate_detailed_schema(metadata_fields),
+            schema=detailed_schema,
             batch_size=batch_size,
             rows_per_file=rows_per_file,
             compression=compression,
         )
         ranked_writer = FileCacheWriter.create(
             path=generate_ranked_cache_path(path),
-            schema=generate_ranked_schema(metadata_fields),
+            schema=ranked_schema,
             batch_size=batch_size,
             rows_per_file=rows_per_file,
             compression=compression,
-- 
2.43.0


From 8fd37ba65268579430df22ffa7217200dc4d2300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:24 +0000
Subject: [PATCH 23/32] fix: never overwrite files that are already at the
 location of a new loader

---
 src/valor_lite/classification/evaluator.py        | 10 ++++++++++
 src/valor_lite/object_detection/evaluator.py      |  9 +++++++++
 src/valor_lite/semantic_segmentation/evaluator.py |  8 ++++++++
 3 files changed, 27 insertions(+)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index 16da7c3..37bd2c2 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -127,6 +127,16 @@ class Builder:
         """
         path = Path(path)
 
+        # never overwrite what is already there
+        for occupied in (
+            generate_cache_path(path),
+            generate_intermediate_cache_path(path),
+            generate_roc_curve_cache_path(path),
+            generate_metadata_path(path),
+        ):
+            if occupied.exists():
+                raise FileExistsError(f"Path already exists: {occupied}")
+
         # create cache
         writer = FileCacheWriter.create(
             path=generate_cache_path(path),
diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index 67989b7..c574b99 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -117,6 +117,15 @@ class Builder:
         """
         path = Path(path)
 
+        # never overwrite what is already there
+        for occupied in (
+            generate_detailed_cache_path(path),
+            generate_ranked_cache_path(path),
+            generate_metadata_path(path),
+        ):
+            if occupied.exists():
+                raise FileExistsError(f"Path already exists: {occupied}")
+
         # validate metadata before anything is created
         detailed_schema = generate_detailed_schema(metadata_fields)
         ranked_schema = generate_ranked_schema(metadata_fields)
diff --git a/src/valor_lite/semantic_segmentation/evaluator.py b/src/valor_lite/semantic_segmentation/evaluator.py
index 8828858..4b94f11 100644
--- a/src/valor_lite/semantic_segmentation/evaluator.py
+++ b/src/valor_lite/semantic_segmentation/evaluator.py
@@ -94,6 +94,14 @@ class Builder:
         """
         path = Path(path)
 
+        # never overwrite what is already there
+        for occupied in (
+            generate_cache_path(path),
+            generate_metadata_path(path),
+        ):
+            if occupied.exists():
+                raise FileExistsError(f"Path already exists: {occupied}")
+
         # create cache
         writer = FileCacheWriter.create(
             path=generate_cache_path(path),
-- 
2.43.0


From ddffef985e853b3ad870a05d141d828f8c8c008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:13 +0000
Subject: [PATCH 24/32] fix: find the files of a cache whose path contains glob
 characters

---
 src/valor_lite/cache/persistent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 60bbc1b..d2025d3 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -107,7 +107,8 @@ class FileCache:
         if not self._path.exists():
             return []
         return [
-            Path(filepath) for filepath in glob.glob(f"{self._path}/*.parquet")
+            Path(filepath)
+            for filepath in glob.glob(f"{glob.escape(str(self._path))}/*.parquet")
         ]
 
 
-- 
2.43.0


From 659613d976c6fae5d8c9c29983dd7fc02c3f7f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:13 +0000
Subject: [PATCH 25/32] fix: read caches at relative paths that look like an
 URI or a home directory

---
 src/valor_lite/cache/persistent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index d2025d3..4c846aa 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -22,7 +22,7 @@ class FileCache:
         rows_per_file: int,
         compression: str,
     ):
-        self._path = Path(path)
+        self._path = Path(path).absolute()
         self._schema = schema
         self._batch_size = batch_size
         self._rows_per_file = rows_per_file
-- 
2.43.0


From 88037f86ef483d7ced55afa9df7c5aaf8428ebc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:46 +0000
Subject: [PATCH 26/32] fix: read caches with the types of their schema

---
 src/valor_lite/cache/persistent.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 4c846aa..4061a90 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -192,7 +192,9 @@ class FileCacheReader(FileCache):
         Iterator[pa.Table]
         """
         for fragment in self.iterate_ordered_fragments(filter=filter):
-            yield fragment.to_table(columns=columns, filter=filter)
+            yield fragment.to_table(
+                schema=self._schema, columns=columns, filter=filter
+            )
 
     def iterate_arrays(
         self,
@@ -272,7 +274,9 @@ class FileCacheReader(FileCache):
         Iterator[Iterator[pa.RecordBatch]]
         """
         for fragment in self.iterate_ordered_fragments():
-            yield fragment.to_batches(batch_size=batch_size)
+            yield fragment.to_batches(
+                schema=self._schema, batch_size=batch_size
+            )
 
 
 class FileCacheWriter(FileCache):
-- 
2.43.0


From b312cc5bf5e58c49b0c756d1e382380043d613b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:21 +0000
Subject: [PATCH 27/32] fix: refuse or convert written data that does not match
 the schema of a cache

---
 src/valor_lite/cache/ephemeral.py  |  4 ++++
 src/valor_lite/cache/persistent.py |  4 ++++
 src/valor_lite/cache/schema.py     | 34 ++++++++++++++++++++++++++++++
 3 files changed, 42 insertions(+)
 create mode 100644 src/valor_lite/cache/schema.py

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index 4fc3bf8..1fd5c60 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -5,6 +5,8 @@ import numpy as np
 import pyarrow as pa
 import pyarrow.compute as pc
 
+from valor_lite.cache.schema import conform_to_schema
+
 
 class MemoryCache:
     def __init__(
@@ -219,6 +221,7 @@ class MemoryCacheWriter(MemoryCache):
         batch : pa.RecordBatch
             A batch of columnar data.
         """
+        batch = conform_to_schema(batch, self.schema)
         size = batch.num_rows
         if self._buffer:
             size += sum([b.num_rows for b in self._buffer])
@@ -256,6 +259,7 @@ class MemoryCacheWriter(MemoryCache):
         table : pa.Table
             A populated table.
         """
+        table = conform_to_schema(table, self.schema)
         self.flush()
         self._table = pa.concat_tables([self._table, table])
 
diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 4061a90..871c57b 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -12,6 +12,8 @@ import pyarrow.compute as pc
 import pyarrow.dataset as ds
 import pyarrow.parquet as pq
 
+from valor_lite.cache.schema import conform_to_schema
+
 
 class FileCache:
     def __init__(
@@ -427,6 +429,7 @@ class FileCacheWriter(FileCache):
         batch : pa.RecordBatch
             A batch of columnar data.
         """
+        batch = conform_to_schema(batch, self._schema)
         size = batch.num_rows
         if self._buffer:
             size += sum([b.num_rows for b in self._buffer])
@@ -462,6 +465,7 @@ class FileCacheWriter(FileCache):
         table : pa.Table
             A populated table.
         """
+        table = conform_to_schema(table, self._schema)
         self.flush()
         pq.write_table(
             table,
diff --git a/src/valor_lite/cache/schema.py b/src/valor_lite/cache/schema.py
new file mode 100644
index 0000000..c5c9fc4
--- /dev/null
+++ b/src/valor_lite/cache/schema.py
@@ -0,0 +1,34 @@
+from typing import TypeVar
+
+import pyarrow as pa
+
+T = TypeVar("T", pa.RecordBatch, pa.Table)
+
+
+def conform_to_schema(data: T, schema: pa.Schema) -> T:
+    """
+    Arrange and cast columnar data to match a schema.
+
+    Parameters
+    ----------
+    data : pa.RecordBatch | pa.Table
+        Columnar data.
+    schema : pa.Schema
+        The schema to match.
+
+    Returns
+    -------
+    pa.RecordBatch | pa.Table
+
+    Raises
+    ------
+    ValueError
+        If the columns differ from the schema or cannot be cast to its types.
+    """
+    if data.schema.equals(schema):
+        return data
+    if sorted(data.schema.names) != sorted(schema.names):
+        raise ValueError(
+            f"expected columns {schema.names}, received {data.schema.names}"
+        )
+    return data.select(schema.names).cast(schema)
-- 
2.43.0


From e145754a659d12e8de15cb7a049f1c62c66badb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:46 +0000
Subject: [PATCH 28/32] fix: sort several cache files by columns that hold NaN
 or null

---
 src/valor_lite/cache/compute.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/valor_lite/cache/compute.py b/src/valor_lite/cache/compute.py
index df3f54d..0661528 100644
--- a/src/valor_lite/cache/compute.py
+++ b/src/valor_lite/cache/compute.py
@@ -34,12 +34,16 @@ def _merge(
         batch_idx: int,
         row_idx: int,
     ):
-        args = [
-            -batches[batch_idx][name][row_idx].as_py()
-            if direction == "descending"
-            else batches[batch_idx][name][row_idx].as_py()
-            for name, direction in sorting
-        ]
+        args = []
+        for name, direction in sorting:
+            value = batches[batch_idx][name][row_idx].as_py()
+            # match the order of pyarrow: numbers, then NaN, then null
+            if value is None:
+                args.append((2, 0))
+            elif value != value:
+                args.append((1, 0))
+            else:
+                args.append((0, -value if direction == "descending" else value))
         return (
             *args,
             batch_idx,
-- 
2.43.0


From 1541b8c42edff53298ebf4619c1b928cdd381dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:41 +0000
Subject: [PATCH 29/32] fix: caches keep what is written when the caller reuses
 its arrays

---
 src/valor_lite/cache/ephemeral.py  | 5 +++++
 src/valor_lite/cache/persistent.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index 1fd5c60..6683bb7 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -206,6 +206,11 @@ class MemoryCacheWriter(MemoryCache):
         """
         if not columns:
             return
+        # copy as pyarrow does not, the caller may go on using its arrays
+        columns = {
+            name: values.copy() if isinstance(values, np.ndarray) else values
+            for name, values in columns.items()
+        }
         batch = pa.RecordBatch.from_pydict(columns, schema=self.schema)
         self.write_batch(batch)
 
diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 871c57b..d639ea1 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -414,6 +414,11 @@ class FileCacheWriter(FileCache):
         """
         if not columns:
             return
+        # copy as pyarrow does not, the caller may go on using its arrays
+        columns = {
+            name: values.copy() if isinstance(values, np.ndarray) else values
+            for name, values in columns.items()
+        }
         batch = pa.RecordBatch.from_pydict(columns, schema=self._schema)
         self.write_batch(batch)
 
-- 
2.43.0


From 6f1f7a4c674ad6d9e5cb146f74b0ae904c6de52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:26 +0000
Subject: [PATCH 30/32] fix: a finalized classification or detection loader
 refuses further data

---
 src/valor_lite/classification/evaluator.py | 6 +++++-
 src/valor_lite/classification/loader.py    | 2 ++
 src/valor_lite/object_detection/loader.py  | 3 +++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index 37bd2c2..3892a02 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -65,6 +65,9 @@ class Builder:
         self._intermediate_writer = intermediate_writer
         self._metadata_fields = metadata_fields
 
+        # internal state
+        self._finalized = False
+
     @classmethod
     def in_memory(
         cls,
@@ -291,7 +294,7 @@ class Builder:
         self._writer.flush()
         if self._writer.count_rows() == 0:
             raise EmptyCacheError()
-        elif self._roc_curve_writer.count_rows() > 0:
+        elif self._finalized or self._roc_curve_writer.count_rows() > 0:
             raise RuntimeError("data already finalized")
 
         # sort in-place and locally
@@ -319,6 +322,7 @@ class Builder:
             index_to_label=index_to_label,
         )
         roc_curve_reader = self._roc_curve_writer.to_reader()
+        self._finalized = True
 
         return Evaluator(
             reader=reader,
diff --git a/src/valor_lite/classification/loader.py b/src/valor_lite/classification/loader.py
index e76b7a2..1ec6a9e 100644
--- a/src/valor_lite/classification/loader.py
+++ b/src/valor_lite/classification/loader.py
@@ -58,6 +58,8 @@ class Loader(Builder):
         show_progress : bool, default=False
             Toggle for tqdm progress bar.
         """
+        if self._finalized:
+            raise RuntimeError("data already finalized")
 
         disable_tqdm = not show_progress
         for classification in tqdm(classifications, disable=disable_tqdm):
diff --git a/src/valor_lite/object_detection/loader.py b/src/valor_lite/object_detection/loader.py
index 6dd4f03..32fe1d7 100644
--- a/src/valor_lite/object_detection/loader.py
+++ b/src/valor_lite/object_detection/loader.py
@@ -59,6 +59,9 @@ class Loader(Builder):
         show_progress: bool = False,
     ):
         """Adds detections to the cache."""
+        if self._finalized:
+            raise RuntimeError("data already finalized")
+
         disable_tqdm = not show_progress
         for detection, ious in tqdm(
             zip(detections, detection_ious), disable=disable_tqdm
-- 
2.43.0


From 32c55adac72845647444272706ceb4a267ca67e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 31/32] fix: keep ROC AUC within [0, 1] when datums do not
 score every label

---
 src/valor_lite/classification/computation.py | 10 +++++-----
 src/valor_lite/classification/evaluator.py   |  7 ++++++-
 src/valor_lite/classification/shared.py      | 17 +++++++++++++++++
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index 7dce254..5e7925f 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -10,7 +10,7 @@ def compute_rocauc(
     rocauc: NDArray[np.float64],
     array: NDArray[np.float64],
     gt_count_per_label: NDArray[np.uint64],
-    pd_count_per_label: NDArray[np.uint64],
+    negative_count_per_label: NDArray[np.uint64],
     n_labels: int,
     prev: NDArray[np.uint64],
 ) -> tuple[NDArray[np.float64], NDArray[np.uint64]]:
@@ -28,8 +28,8 @@ def compute_rocauc(
             Index 2 - Cumulative TP
     gt_count_per_label : NDArray[np.uint64]
         The number of ground truth occurences per label.
-    pd_count_per_label : NDArray[np.uint64]
-        The number of prediction occurences per label.
+    negative_count_per_label : NDArray[np.uint64]
+        The number of predictions per label that do not match their ground truth.
     n_labels : int
         The total number of unqiue labels.
     prev : NDArray[np.uint64]
@@ -49,12 +49,12 @@ def compute_rocauc(
     cumulative_tp = array[:, 2]
 
     positive_count = gt_count_per_label
-    negative_count = pd_count_per_label - gt_count_per_label
+    negative_count = negative_count_per_label
 
     for label_idx in range(n_labels):
         mask_pds = pd_labels == label_idx
         n_masked_pds = mask_pds.sum()
-        if pd_count_per_label[label_idx] == 0 or n_masked_pds == 0:
+        if n_masked_pds == 0:
             continue
 
         fps = cumulative_fp[mask_pds]
diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index 3892a02..e2c5f34 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -32,6 +32,7 @@ from valor_lite.classification.shared import (
     extract_counts,
     extract_groundtruth_count_per_label,
     extract_labels,
+    extract_mismatch_count_per_label,
     generate_cache_path,
     generate_intermediate_cache_path,
     generate_intermediate_schema,
@@ -557,6 +558,10 @@ class Evaluator:
             reader=self._reader,
             number_of_labels=len(self._index_to_label),
         )
+        negative_counts = extract_mismatch_count_per_label(
+            reader=self._reader,
+            number_of_labels=len(self._index_to_label),
+        )
 
         prev = np.zeros((n_labels, 2), dtype=np.uint64)
         for array in self._roc_curve_reader.iterate_arrays(
@@ -570,7 +575,7 @@ class Evaluator:
                 rocauc=rocauc,
                 array=array,
                 gt_count_per_label=label_counts[:, 0],
-                pd_count_per_label=label_counts[:, 1],
+                negative_count_per_label=negative_counts,
                 n_labels=self.info.number_of_labels,
                 prev=prev,
             )
diff --git a/src/valor_lite/classification/shared.py b/src/valor_lite/classification/shared.py
index fdc9b1e..2a320ef 100644
--- a/src/valor_lite/classification/shared.py
+++ b/src/valor_lite/classification/shared.py
@@ -182,3 +182,20 @@ def extract_groundtruth_count_per_label(
         label_counts[unique_pd_labels, 1] += pd_label_counts.astype(np.uint64)
 
     return label_counts
+
+
+def extract_mismatch_count_per_label(
+    reader: MemoryCacheReader | FileCacheReader,
+    number_of_labels: int,
+) -> NDArray[np.uint64]:
+
+    # count predictions that do not match the ground truth of their datum
+    counts = np.zeros(number_of_labels, dtype=np.uint64)
+    for tbl in reader.iterate_tables(columns=["pd_label_id", "match"]):
+        pd_label_ids = tbl["pd_label_id"].to_numpy()
+        matches = tbl["match"].to_numpy()
+        counts += np.bincount(
+            pd_label_ids[~matches], minlength=number_of_labels
+        ).astype(np.uint64)
+
+    return counts
-- 
2.43.0


From dd75b0eb9db4950dd219331ef6370d46f8072bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:40 +0000
Subject: [PATCH 32/32] fix: compute the IOU of boxes and polygons of tiny area

---
 src/valor_lite/object_detection/computation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/object_detection/computation.py b/src/valor_lite/object_detection/computation.py
index 0ea1989..f0a8b29 100644
--- a/src/valor_lite/object_detection/computation.py
+++ b/src/valor_lite/object_detection/computation.py
@@ -73,7 +73,7 @@ def compute_bbox_iou(data: NDArray[np.float64]) -> NDArray[np.float64]:
     np.divide(
         intersection_area,
         union_area,
-        where=union_area >= EPSILON,
+        where=union_area > 0,
         out=ious,
     )
     return ious
@@ -170,7 +170,7 @@ def compute_polygon_iou(
     np.divide(
         intersection_areas,
         union_areas,
-        where=union_areas >= EPSILON,
+        where=union_areas > 0,
         out=ious,
     )
     return ious
-- 
2.43.0

