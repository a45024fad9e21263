From f69a44b44a67bb154bda6ce09b2eb573ef73cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 01/32] fix: keep class bits above 7 when encoding uint8 edge
 planes to 32 bits

---
 pyEdgeEval/common/multi_label/edge_encoding.py | 2 +-
 pyEdgeEval/utils/convert_formats.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/common/multi_label/edge_encoding.py b/pyEdgeEval/common/multi_label/edge_encoding.py
index 22945b0..edb6006 100644
--- a/pyEdgeEval/common/multi_label/edge_encoding.py
+++ b/pyEdgeEval/common/multi_label/edge_encoding.py
@@ -21,7 +21,7 @@ def default_multilabel_encoding(edges: np.ndarray):
 
     cat_edge_map = np.zeros((h, w), dtype=np.uint32)
     for trainId in range(num_classes):
-        edge_map = edges[trainId]
+        edge_map = edges[trainId].astype(np.uint32)
         cat_edge_map = cat_edge_map + (2**trainId) * edge_map
 
     return cat_edge_map
diff --git a/pyEdgeEval/utils/convert_formats.py b/pyEdgeEval/utils/convert_formats.py
index 35e1ef7..2993621 100644
--- a/pyEdgeEval/utils/convert_formats.py
+++ b/pyEdgeEval/utils/convert_formats.py
@@ -35,7 +35,7 @@ def edge_onehot2multilabel(edges: np.ndarray) -> np.ndarray:
 
     edge_map = np.zeros((h, w), dtype=np.uint32)
     for l in range(labels):
-        m = edges[l]
+        m = edges[l].astype(np.uint32)
         edge_map = edge_map + (2**l) * m
 
     return edge_map
-- 
2.43.0


From be63475ff1253b14efc3a699be3a71b900d0f0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 02/32] fix: bwmorph_thin fails on current NumPy because
 np.in1d was removed

---
 pyEdgeEval/preprocess/thin/bwmorph_thin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/preprocess/thin/bwmorph_thin.py b/pyEdgeEval/preprocess/thin/bwmorph_thin.py
index dacd5a4..d160d55 100644
--- a/pyEdgeEval/preprocess/thin/bwmorph_thin.py
+++ b/pyEdgeEval/preprocess/thin/bwmorph_thin.py
@@ -114,7 +114,7 @@ def bwmorph_thin(image, n_iter=None):
 
     if skel.ndim != 2:
         raise ValueError("2D array required")
-    if not np.all(np.in1d(image.flat, (0, 1))):
+    if not np.all(np.isin(image, (0, 1))):
         raise ValueError("Image contains values other than 0 and 1")
 
     # neighborhood mask
-- 
2.43.0


From 3454dfecdf447f5ae209d7c8152b38e386f105ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 03/32] fix: binary_thin stopped while one of its two passes
 could still thin

---
 pyEdgeEval/preprocess/thin/thin.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyEdgeEval/preprocess/thin/thin.py b/pyEdgeEval/preprocess/thin/thin.py
index b843c5c..b4b2c00 100644
--- a/pyEdgeEval/preprocess/thin/thin.py
+++ b/pyEdgeEval/preprocess/thin/thin.py
@@ -262,20 +262,20 @@ def binary_thin(x, max_iter=None):
         # Iter 1
         lut_indices = binary_image_to_lut_indices(x)
         # FIXME: index "" is out of bounds for axis 0 with size 512
-        x_mut = thin1_mut[lut_indices]
-        if x_mut.sum() == 0:
-            break
+        changed = thin1_mut[lut_indices].any()
 
         x = thin1[lut_indices]
 
         # Iter 2
         lut_indices = binary_image_to_lut_indices(x)
-        x_mut = thin2_mut[lut_indices]
-        if x_mut.sum() == 0:
-            break
+        changed = thin2_mut[lut_indices].any() or changed
 
         x = thin2[lut_indices]
 
+        # terminate only when a whole iteration changes nothing
+        if not changed:
+            break
+
         iter_count += 1
 
     return x
-- 
2.43.0


From 5ffd30740b85f6eebf5e11e0a6bd98f98aef7a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 04/32] fix: scipy back-end drew spurious boundaries when a
 label fills the image

---
 pyEdgeEval/utils/distance_transforms.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyEdgeEval/utils/distance_transforms.py b/pyEdgeEval/utils/distance_transforms.py
index 05add88..22da311 100644
--- a/pyEdgeEval/utils/distance_transforms.py
+++ b/pyEdgeEval/utils/distance_transforms.py
@@ -7,6 +7,14 @@ from scipy.ndimage.morphology import distance_transform_edt
 __all__ = ["mask2bdry"]
 
 
+def scipy_distance_transform(m):
+    """distance to the nearest zero (infinite if there are no zeros)"""
+    if m.all():
+        # the output of scipy is not meaningful without any background
+        return np.full(m.shape, np.inf)
+    return distance_transform_edt(m)
+
+
 def cv2_mask2bdry(m, ignore_mask, radius, quality):
     inner = cv2.distanceTransform(
         ((m + ignore_mask) > 0).astype(np.uint8), cv2.DIST_L2, quality
@@ -22,8 +30,8 @@ def cv2_mask2bdry(m, ignore_mask, radius, quality):
 
 
 def scipy_mask2bdry(m, ignore_mask, radius):
-    inner = distance_transform_edt((m + ignore_mask) > 0)
-    outer = distance_transform_edt(1.0 - m)
+    inner = scipy_distance_transform((m + ignore_mask) > 0)
+    outer = scipy_distance_transform((1.0 - m) > 0)
     dist = outer + inner
 
     dist[dist > radius] = 0
@@ -44,7 +52,7 @@ def mask2internal(
             ((mask + ignore_mask) > 0).astype(np.uint8), cv2.DIST_L2, quality
         )
     else:
-        inner = distance_transform_edt((mask + ignore_mask) > 0)
+        inner = scipy_distance_transform((mask + ignore_mask) > 0)
 
     inner[inner > radius] = 0
     return (inner > 0).astype(np.uint8)
-- 
2.43.0


From 7a661f52f85ee20394fed67bac4cab5504ef7cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 05/32] fix: accept threshold arrays as documented

---
 pyEdgeEval/common/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyEdgeEval/common/utils.py b/pyEdgeEval/common/utils.py
index 7c1eaea..fafdb97 100644
--- a/pyEdgeEval/common/utils.py
+++ b/pyEdgeEval/common/utils.py
@@ -15,6 +15,9 @@ def check_thresholds(thresholds):
     elif isinstance(thresholds, list):
         # multiple specific thresholds
         thresholds = np.array(thresholds)
+    elif isinstance(thresholds, np.ndarray):
+        # already an array
+        pass
     else:
         raise ValueError(
             "thresholds should be an int or a NumPy array, not "
-- 
2.43.0


From 32534e8203e00e83fd90f948b0ba09d5d4df0657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 06/32] fix: average precision skipped the last of its 101
 recall levels

---
 pyEdgeEval/common/binary_label/calculate_metrics.py | 2 +-
 pyEdgeEval/common/multi_label/calculate_metrics.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/common/binary_label/calculate_metrics.py b/pyEdgeEval/common/binary_label/calculate_metrics.py
index 0331197..4b20d5c 100644
--- a/pyEdgeEval/common/binary_label/calculate_metrics.py
+++ b/pyEdgeEval/common/binary_label/calculate_metrics.py
@@ -137,7 +137,7 @@ def calculate_metrics(
 
     # Calculate AP
     ap = 0
-    for t in np.arange(0, 1, 0.01):
+    for t in np.linspace(0, 1, 101):
         _r = rec_overall >= t
         p = np.max(prec_overall[_r], initial=0)
         ap = ap + p / 101
diff --git a/pyEdgeEval/common/multi_label/calculate_metrics.py b/pyEdgeEval/common/multi_label/calculate_metrics.py
index 36f0e05..371e1c4 100644
--- a/pyEdgeEval/common/multi_label/calculate_metrics.py
+++ b/pyEdgeEval/common/multi_label/calculate_metrics.py
@@ -140,7 +140,7 @@ def calculate_metrics(
 
     # Calculate AP
     ap = 0
-    for t in np.arange(0, 1, 0.01):
+    for t in np.linspace(0, 1, 101):
         _r = rec_overall >= t
         p = np.max(prec_overall[_r], initial=0)
         ap = ap + p / 101
-- 
2.43.0


From f5c97c1b05d37a4a588fdd71d3742644bce5cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 07/32] fix: SBD internal suppression used the segmentation of
 the previous category

---
 pyEdgeEval/datasets/sbd.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyEdgeEval/datasets/sbd.py b/pyEdgeEval/datasets/sbd.py
index 6c86c74..426a694 100644
--- a/pyEdgeEval/datasets/sbd.py
+++ b/pyEdgeEval/datasets/sbd.py
@@ -60,9 +60,8 @@ def _evaluate_single(
         assert edge.shape[1:] == seg.shape
         # obtain binary map
 
-        # need to be careful where the category starts
-        # some datasets will skip 0 and start from 1 (like sbd)
-        cat_seg = seg == cat_idx
+        # sbd labelIds start from 1 (0 is the background) like `category`
+        cat_seg = seg == category
     else:
         cat_seg = None
 
-- 
2.43.0


From 9644c4a9856b6bca9e82f0507b8f9cb0bf384b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 08/32] fix: worker-pool edge generation misread instances of
 labels below ten

---
 pyEdgeEval/edge_tools/mask2edge_mp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyEdgeEval/edge_tools/mask2edge_mp.py b/pyEdgeEval/edge_tools/mask2edge_mp.py
index 2b7a716..bf1fcc3 100644
--- a/pyEdgeEval/edge_tools/mask2edge_mp.py
+++ b/pyEdgeEval/edge_tools/mask2edge_mp.py
@@ -238,8 +238,7 @@ def mp_instance_mask2edge(
     for inst_label in _cand_insts:
         if inst_label < inst_labels[0] * 1000:  # 24000
             continue
-        _label = int(str(inst_label)[:2])
-        _inst = int(str(inst_label)[2:])
+        _label, _inst = divmod(int(inst_label), 1000)
         if _label not in label_inst.keys():
             label_inst[_label] = [_inst]
         else:
-- 
2.43.0


From ba1e6ec0654adbd84d0247eb4682eab218e6f30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 09/32] fix: SBD evaluation ignored the prediction suffix
 option

---
 pyEdgeEval/helpers/evaluate_sbd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyEdgeEval/helpers/evaluate_sbd.py b/pyEdgeEval/helpers/evaluate_sbd.py
index fa68114..8543686 100644
--- a/pyEdgeEval/helpers/evaluate_sbd.py
+++ b/pyEdgeEval/helpers/evaluate_sbd.py
@@ -178,6 +178,7 @@ def evaluate(
     evaluator = SBDEvaluator(
         dataset_root=sbd_path,
         pred_root=pred_path,
+        pred_suffix=pred_suffix,
         thin=apply_thinning,
         gt_dir=gt_dir,  # NOTE: we can change the directory where the preprocessed GTs are located
     )
-- 
2.43.0


From 8e2a474225f9f00d554efe65a06797acf894766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 10/32] fix: writing .bin edge files raised TypeError

---
 pyEdgeEval/helpers/convert_cityscapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index 4b1909b..b91039e 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -183,7 +183,7 @@ def convert_label_to_semantic_edges(
         edges_img.save(proc_file)
     elif save_format == ".bin":
         edges = default_multilabel_encoding(edge_trainIds)
-        edges.tofile(proc_file, dtype=np.uint32)
+        edges.tofile(proc_file)
     else:
         raise ValueError()
 
-- 
2.43.0


From 6ecf53363656fb952d30d851a081c46eb427c945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 11/32] fix: PR curves could not be plotted from the saved
 overall results

---
 pyEdgeEval/common/binary_label/visualize.py | 3 ++-
 pyEdgeEval/visualization/pr_curve.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/common/binary_label/visualize.py b/pyEdgeEval/common/binary_label/visualize.py
index f3431a5..de9fca7 100644
--- a/pyEdgeEval/common/binary_label/visualize.py
+++ b/pyEdgeEval/common/binary_label/visualize.py
@@ -64,7 +64,8 @@ def plot_pr_curve(
     hs, res, prs = [None] * n, np.zeros((n, 9), dtype=np.float32), []
     for i, alg in enumerate(algs):
         pr = _load_threshold_data(alg.threshold_results)
-        res[i, :8] = _load_overall_results(alg.overall_results)
+        # newer result files have AP as the 9th column
+        res[i, :8] = _load_overall_results(alg.overall_results)[:8]
         res[i, 8] = _calc_r50(pr)
         prs.append(pr)
     prs = np.stack(prs, axis=0)
diff --git a/pyEdgeEval/visualization/pr_curve.py b/pyEdgeEval/visualization/pr_curve.py
index 2a0da75..9e76a9b 100644
--- a/pyEdgeEval/visualization/pr_curve.py
+++ b/pyEdgeEval/visualization/pr_curve.py
@@ -105,7 +105,8 @@ def plot_pr_curve(
     hs, res, prs = [None] * n, np.zeros((n, 9), dtype=np.float32), []
     for i, alg in enumerate(algs):
         pr = _load_threshold_data(alg.threshold_results)
-        res[i, :8] = _load_overall_results(alg.overall_results)
+        # newer result files have AP as the 9th column
+        res[i, :8] = _load_overall_results(alg.overall_results)[:8]
         res[i, 8] = _calc_r50(pr)
         prs.append(pr)
     prs = np.stack(prs, axis=0)
-- 
2.43.0


From dc20e4a95e05bb4b3865fb9424dada6c186f6626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 12/32] fix: PR curves with different numbers of usable
 thresholds could not be plotted together

---
 pyEdgeEval/common/binary_label/visualize.py | 8 ++++----
 pyEdgeEval/visualization/pr_curve.py        | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyEdgeEval/common/binary_label/visualize.py b/pyEdgeEval/common/binary_label/visualize.py
index de9fca7..d63e17d 100644
--- a/pyEdgeEval/common/binary_label/visualize.py
+++ b/pyEdgeEval/common/binary_label/visualize.py
@@ -68,17 +68,17 @@ def plot_pr_curve(
         res[i, :8] = _load_overall_results(alg.overall_results)[:8]
         res[i, 8] = _calc_r50(pr)
         prs.append(pr)
-    prs = np.stack(prs, axis=0)
 
     # sort algorithms by ODS score
     o = np.argsort(res[:, 3])[::-1]
-    res, prs, names, colors = res[o, :], prs[o], names[o], colors[o]
+    res, names, colors = res[o, :], names[o], colors[o]
+    prs = [prs[i] for i in o]  # the number of rows may differ
 
     # plot results for every algorithm (plot best last)
     for i in range(n - 1, -1, -1):
         hs[i] = ax.plot(
-            prs[i, :, 1],
-            prs[i, :, 2],
+            prs[i][:, 1],
+            prs[i][:, 2],
             linestyle="-",
             linewidth=3,
             color=colors[i],
diff --git a/pyEdgeEval/visualization/pr_curve.py b/pyEdgeEval/visualization/pr_curve.py
index 9e76a9b..c033a11 100644
--- a/pyEdgeEval/visualization/pr_curve.py
+++ b/pyEdgeEval/visualization/pr_curve.py
@@ -109,17 +109,17 @@ def plot_pr_curve(
         res[i, :8] = _load_overall_results(alg.overall_results)[:8]
         res[i, 8] = _calc_r50(pr)
         prs.append(pr)
-    prs = np.stack(prs, axis=0)
 
     # sort algorithms by ODS score
     o = np.argsort(res[:, 3])[::-1]
-    res, prs, names, colors = res[o, :], prs[o], names[o], colors[o]
+    res, names, colors = res[o, :], names[o], colors[o]
+    prs = [prs[i] for i in o]  # the number of rows may differ
 
     # plot results for every algorithm (plot best last)
     for i in range(n - 1, -1, -1):
         hs[i] = ax.plot(
-            prs[i, :, 1],
-            prs[i, :, 2],
+            prs[i][:, 1],
+            prs[i][:, 2],
             linestyle="-",
             linewidth=3,
             color=colors[i],
-- 
2.43.0


From 75bc649ca7fc87dc0a6410cd40a25f6c19cd11a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 13/32] fix: PR curves of single-threshold results could not be
 plotted

---
 pyEdgeEval/visualization/pr_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/visualization/pr_curve.py b/pyEdgeEval/visualization/pr_curve.py
index c033a11..ec8ede0 100644
--- a/pyEdgeEval/visualization/pr_curve.py
+++ b/pyEdgeEval/visualization/pr_curve.py
@@ -53,7 +53,7 @@ def _isometric_contour_line_template(
 
 def _load_threshold_data(data_path):
     assert os.path.exists(data_path), f"ERR: {data_path} doesn't exist"
-    pr = np.loadtxt(data_path)
+    pr = np.loadtxt(data_path, ndmin=2)
     pr = pr[pr[:, 1] >= 1e-3]
     return pr
 
-- 
2.43.0


From cf866d2e687c99b4114389f1ce4fe593c4d27c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 14/32] fix: one-hot conversion rejected images with fewer rows
 than labels

---
 pyEdgeEval/utils/convert_formats.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyEdgeEval/utils/convert_formats.py b/pyEdgeEval/utils/convert_formats.py
index 2993621..9213f12 100644
--- a/pyEdgeEval/utils/convert_formats.py
+++ b/pyEdgeEval/utils/convert_formats.py
@@ -8,13 +8,9 @@ def mask2onehot(mask, labels):
     Converts a segmentation mask (H,W) to (K,H,W) where the last dim is a one
     hot encoding vector
     """
-    c = mask.shape[0]
     assert (
         len(labels) > 0
     ), "`labels` should be a list with more than 1 elements"
-    assert c >= len(
-        labels
-    ), "tried to convert into onehot with more labels than the original mask"
     _mask = [mask == i for i in labels]
     return np.array(_mask).astype(np.uint8)
 
-- 
2.43.0


From 6c95e096e3b2202dc88544eed6efca479a443457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 15/32] fix: nms aborted the process on maps one pixel wide or
 high

---
 pyEdgeEval/_lib/src/benms.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/_lib/src/benms.cc b/pyEdgeEval/_lib/src/benms.cc
index 68326e1..cf81d03 100644
--- a/pyEdgeEval/_lib/src/benms.cc
+++ b/pyEdgeEval/_lib/src/benms.cc
@@ -14,8 +14,11 @@ inline double interp(const Matrix& I, int h, int w, double x, double y)
   // return I[x,y] via bilinear interpolation
   x = x < 0 ? 0 : (x > w - 1.001 ? w - 1.001 : x);
   y = y < 0 ? 0 : (y > h - 1.001 ? h - 1.001 : y);
+  // a map that is only one pixel wide or high has nothing to interpolate with
+  x = w < 2 ? 0 : x;
+  y = h < 2 ? 0 : y;
   int x0 = int(x), y0 = int(y);
-  int x1 = x0 + 1, y1 = y0 + 1;
+  int x1 = w < 2 ? 0 : x0 + 1, y1 = h < 2 ? 0 : y0 + 1;
   double dx0 = x - x0, dy0 = y - y0;
   double dx1 = 1 - dx0, dy1 = 1 - dy0;
   double out = I(y0, x0) * dx1 * dy1 +
-- 
2.43.0


From 8313c749dcd816ec55df213a4f768ae5ffcfe77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:50 +0000
Subject: [PATCH 16/32] fix: loggers whose name merely starts with another
 logger's name were left unconfigured

---
 pyEdgeEval/utils/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/utils/logger.py b/pyEdgeEval/utils/logger.py
index 8632123..f8090b1 100644
--- a/pyEdgeEval/utils/logger.py
+++ b/pyEdgeEval/utils/logger.py
@@ -41,7 +41,7 @@ def get_logger(name, log_file=None, log_level=logging.INFO, file_mode="w"):
     # e.g., logger "a" is initialized, then logger "a.b" will skip the
     # initialization since it is a child of "a".
     for logger_name in logger_initialized:
-        if name.startswith(logger_name):
+        if name.startswith(logger_name + "."):
             return logger
 
     stream_handler = logging.StreamHandler()
-- 
2.43.0


From 5514b06ffed3b6ff7a25e0c14faedec5465c455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 17/32] fix: instances of labels with three digits were ignored
 by the label loop

---
 pyEdgeEval/edge_tools/mask2edge_loop.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyEdgeEval/edge_tools/mask2edge_loop.py b/pyEdgeEval/edge_tools/mask2edge_loop.py
index aab30ee..242a532 100644
--- a/pyEdgeEval/edge_tools/mask2edge_loop.py
+++ b/pyEdgeEval/edge_tools/mask2edge_loop.py
@@ -91,7 +91,8 @@ def loop_instance_mask2edge(
         warn(
             "inst labels has labelId of 0, but this should be the background Id"
         )
-    min_inst_id = inst_labels[0] * (10 ** (_inst_len - _inst_id_dig))
+    inst_base = 10 ** (_inst_len - _inst_id_dig)
+    min_inst_id = inst_labels[0] * inst_base
 
     # create a lookup dictionary {label: [instances]}
     label_inst = {}
@@ -100,11 +101,7 @@ def loop_instance_mask2edge(
         if inst_label < min_inst_id:
             continue
 
-        # convert to string and fill
-        inst_label = str(inst_label).zfill(_inst_len)
-
-        _label = int(inst_label[:_inst_id_dig])
-        _inst = int(inst_label[_inst_id_dig:])
+        _label, _inst = divmod(int(inst_label), inst_base)
         if _label not in label_inst.keys():
             label_inst[_label] = [_inst]
         else:
@@ -134,7 +131,7 @@ def loop_instance_mask2edge(
         if label in label_inst.keys():
             instances = label_inst[label]  # list
             for instance in instances:
-                iid = int(str(label) + str(instance).zfill(3))
+                iid = label * inst_base + instance
                 _mask = inst_mask == iid
                 dist = dist | mask2bdry(
                     mask=_mask,
-- 
2.43.0


From 5a53b978b5f5176a7b5e90165f2bf941c191117e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:44 +0000
Subject: [PATCH 18/32] fix: single-channel label maps with a channel axis
 could not be relabelled

---
 pyEdgeEval/utils/convert_formats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyEdgeEval/utils/convert_formats.py b/pyEdgeEval/utils/convert_formats.py
index 9213f12..4e0965e 100644
--- a/pyEdgeEval/utils/convert_formats.py
+++ b/pyEdgeEval/utils/convert_formats.py
@@ -52,6 +52,7 @@ def mask_label2trainId(mask: np.ndarray, label2trainId: dict) -> np.ndarray:
     elif len(mask.shape) == 3:
         h, w, c = mask.shape
         assert c == 1, f"ERR: input label has {c} channels which should be 1"
+        mask = mask[..., 0]
     else:
         raise ValueError()
 
-- 
2.43.0


From 21dce2fb49566171e57b4b5f0a4cf2db1a78e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:59 +0000
Subject: [PATCH 19/32] fix: a refused Cityscapes configuration call kept half
 of its settings

---
 pyEdgeEval/evaluators/cityscapes.py      | 7 ++++---
 pyEdgeEval/evaluators/half_cityscapes.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyEdgeEval/evaluators/cityscapes.py b/pyEdgeEval/evaluators/cityscapes.py
index 20cb61d..cc57490 100644
--- a/pyEdgeEval/evaluators/cityscapes.py
+++ b/pyEdgeEval/evaluators/cityscapes.py
@@ -155,15 +155,16 @@ class CityscapesEvaluator(BaseMultilabelEvaluator):
     ) -> None:
 
         assert 0 < scale <= 1, f"ERR: scale ({scale}) is not valid"
+        # refuse before anything is set
+        assert not (
+            eval_mode == "pre-seal" and instance_sensitive
+        ), "Pre-SEAL configuration doesn't support instance sensitive edges"
         self.scale = scale
         self.apply_thinning = apply_thinning
         self.apply_nms = apply_nms
 
         if eval_mode == "pre-seal":
             print_log("Using Pre-SEAL params", logger=self._logger)
-            assert (
-                not instance_sensitive
-            ), "Pre-SEAL configuration doesn't support instance sensitive edges"
             self.max_dist = 0.02
             self.kill_internal = True
             self.skip_if_nonexistent = True
diff --git a/pyEdgeEval/evaluators/half_cityscapes.py b/pyEdgeEval/evaluators/half_cityscapes.py
index ae73c56..08635d9 100644
--- a/pyEdgeEval/evaluators/half_cityscapes.py
+++ b/pyEdgeEval/evaluators/half_cityscapes.py
@@ -39,14 +39,15 @@ class HalfCityscapesEvaluator(CityscapesEvaluator):
         **kwargs,
     ) -> None:
 
+        # refuse before anything is set
+        assert not (
+            eval_mode == "pre-seal" and instance_sensitive
+        ), "Pre-SEAL configuration doesn't support instance sensitive edges"
         self.apply_thinning = apply_thinning
         self.apply_nms = apply_nms
 
         if eval_mode == "pre-seal":
             print_log("Using Pre-SEAL params", logger=self._logger)
-            assert (
-                not instance_sensitive
-            ), "Pre-SEAL configuration doesn't support instance sensitive edges"
             self.max_dist = 0.02
             self.kill_internal = True
             self.skip_if_nonexistent = True
-- 
2.43.0


From e3028d5402e9ac9828ac6a71cb662af28e9ea41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:18 +0000
Subject: [PATCH 20/32] fix: the re-annotated SBD entry point always raised
 TypeError

---
 pyEdgeEval/helpers/evaluate_sbd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyEdgeEval/helpers/evaluate_sbd.py b/pyEdgeEval/helpers/evaluate_sbd.py
index 8543686..0925462 100644
--- a/pyEdgeEval/helpers/evaluate_sbd.py
+++ b/pyEdgeEval/helpers/evaluate_sbd.py
@@ -368,7 +368,6 @@ def evaluate_reanno_sbd(gt_dir: str = "gtEval"):
         apply_thinning=apply_thinning,
         apply_nms=args.apply_nms,
         nonIS=args.nonIS,
-        max_dist=args.max_dist,
         thresholds=args.thresholds,
         nproc=args.nproc,
     )
-- 
2.43.0


From 3a45ea49d14fc71b35455396be5e83a2a2156f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:18 +0000
Subject: [PATCH 21/32] fix: curves of results without any recall could not be
 plotted

---
 pyEdgeEval/visualization/pr_curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyEdgeEval/visualization/pr_curve.py b/pyEdgeEval/visualization/pr_curve.py
index ec8ede0..ac3cc9b 100644
--- a/pyEdgeEval/visualization/pr_curve.py
+++ b/pyEdgeEval/visualization/pr_curve.py
@@ -65,6 +65,8 @@ def _load_overall_results(data_path):
 
 
 def _calc_r50(pr):
+    if len(pr) == 0:  # no threshold with any recall
+        return np.nan
     _, o = np.unique(pr[:, 2], return_index=True)
     r50 = interp1d(
         pr[o, 2],
-- 
2.43.0


From eb5436cd47741dd90ff00b7fe70a6be6d7990442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:18 +0000
Subject: [PATCH 22/32] fix: Cityscapes conversion wrote elsewhere when the
 root contains gtFine

---
 pyEdgeEval/helpers/convert_cityscapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index b91039e..c048cc4 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -48,7 +48,7 @@ def convert_json_to_label(
 ) -> None:
     json_dir = osp.dirname(json_file)
     json_fn = osp.basename(json_file)
-    proc_dir = json_dir.replace("gtFine", proc_dir)
+    proc_dir = proc_dir.join(json_dir.rsplit("gtFine", 1))
     proc_fn = json_fn.replace(poly_suffix, id_suffix)
     mkdir_or_exist(proc_dir)
     proc_file = osp.join(proc_dir, proc_fn)
@@ -97,7 +97,7 @@ def convert_label_to_semantic_edges(
         assert radius == 1, "ERR: `thin` requires radius=1"
     label_dir = osp.dirname(label_file)
     label_fn = osp.basename(label_file)
-    proc_dir = label_dir.replace("gtFine", proc_dir)
+    proc_dir = proc_dir.join(label_dir.rsplit("gtFine", 1))
     proc_fn = label_fn.replace(label_suffix, edge_suffix)
 
     mkdir_or_exist(proc_dir)
-- 
2.43.0


From 268fe5d6f32c6a7e713172c11ec3c03ca1fb44af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:18 +0000
Subject: [PATCH 23/32] fix: boundaries loaded as sparse arrays were refused

---
 pyEdgeEval/utils/mat_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyEdgeEval/utils/mat_utils.py b/pyEdgeEval/utils/mat_utils.py
index 7b4c518..4fbbd35 100644
--- a/pyEdgeEval/utils/mat_utils.py
+++ b/pyEdgeEval/utils/mat_utils.py
@@ -4,7 +4,7 @@ import os
 
 # libraries used for .mat io
 from scipy.io import loadmat as scipy_loadmat
-from scipy.sparse import csc_matrix
+from scipy.sparse import csc_matrix, issparse
 
 try:
     # prefer `pymatreader`
@@ -35,7 +35,8 @@ def loadmat(
 
 def sparse2numpy(data: csc_matrix):
     """helper function to convert compressed sparse column matrix to numpy array"""
-    assert isinstance(
-        data, csc_matrix
-    ), f"ERR: input is not csc_matrix, but got {type(data)}"
+    # newer scipy versions load sparse arrays instead of sparse matrices
+    assert issparse(
+        data
+    ), f"ERR: input is not a sparse matrix, but got {type(data)}"
     return data.toarray()
-- 
2.43.0


From 65ea8313c2e2ff2af8626f00d09332d6f1d22e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:18 +0000
Subject: [PATCH 24/32] fix: SBD instance maps could not be written as png

---
 pyEdgeEval/helpers/convert_sbd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/helpers/convert_sbd.py b/pyEdgeEval/helpers/convert_sbd.py
index 59ac25d..bce63db 100644
--- a/pyEdgeEval/helpers/convert_sbd.py
+++ b/pyEdgeEval/helpers/convert_sbd.py
@@ -351,8 +351,8 @@ def routine(
         )
         train_img.save(osp.join(save_dir, f"{sample_name}{train_suffix}"))
 
-        # save instance
-        inst_img = Image.fromarray(inst)
+        # save instance (16 bits; 32-bit images cannot be written as png)
+        inst_img = Image.fromarray(inst.astype(np.uint16))
         inst_img.save(osp.join(save_dir, f"{sample_name}{inst_suffix}"))
 
 
-- 
2.43.0


From c4b14da0434f9f2aa97c9a65900ce8a8dcd8c3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 25/32] fix: a list of one re-annotated SBD sample could not be
 loaded

---
 pyEdgeEval/helpers/convert_sbd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/helpers/convert_sbd.py b/pyEdgeEval/helpers/convert_sbd.py
index bce63db..db25f7f 100644
--- a/pyEdgeEval/helpers/convert_sbd.py
+++ b/pyEdgeEval/helpers/convert_sbd.py
@@ -378,7 +378,7 @@ def load_reanno_samples(path: str, new_loader: bool = False):
     else:
         test = loadmat(path, False)["listTest"]
         # HACK: nested structured array of string
-        test = [t.tolist()[0] for t in test.squeeze()]
+        test = [t.tolist()[0] for t in test.ravel()]
 
     return test
 
-- 
2.43.0


From 7e8f942dc0598f0937d5496fa28f52a5a4459dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:31 +0000
Subject: [PATCH 26/32] fix: BSDS ground truth of a single annotator could not
 be read with the new loader

---
 pyEdgeEval/datasets/bsds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyEdgeEval/datasets/bsds.py b/pyEdgeEval/datasets/bsds.py
index e4052a3..91197bc 100644
--- a/pyEdgeEval/datasets/bsds.py
+++ b/pyEdgeEval/datasets/bsds.py
@@ -21,6 +21,9 @@ def load_bsds_gt_boundaries(path: str, new_loader: bool = False):
         from pymatreader import read_mat
 
         gt = read_mat(path)["groundTruth"]  # list
+        if isinstance(gt, dict):
+            # a single annotator is not wrapped in a list
+            gt = [gt]
         num_gts = len(gt)
         return [gt[i]["Boundaries"] for i in range(num_gts)]
     else:
-- 
2.43.0


From d1b183edb3d3e2140ba25840bb5585d65108d254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:31 +0000
Subject: [PATCH 27/32] fix: SBD samples with a single instance could not be
 read with the new loader

---
 pyEdgeEval/helpers/convert_sbd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyEdgeEval/helpers/convert_sbd.py b/pyEdgeEval/helpers/convert_sbd.py
index db25f7f..45cc408 100644
--- a/pyEdgeEval/helpers/convert_sbd.py
+++ b/pyEdgeEval/helpers/convert_sbd.py
@@ -84,6 +84,9 @@ def load_sbd_gt_inst_mat(path: str, new_loader: bool = False):
         categories = gt["Categories"]
         if isinstance(categories, int):
             categories = np.array([categories])
+        if not isinstance(boundaries, (list, tuple)):
+            # a single instance is not wrapped in a list
+            boundaries = [boundaries]
         if categories.ndim == 0:
             # single value, or no instances
             categories = categories[None]
-- 
2.43.0


From 7b19f70a592bb62a80c9a5e99356a63fcd37c4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:31 +0000
Subject: [PATCH 28/32] fix: a list of one re-annotated SBD sample could not be
 read with the new loader

---
 pyEdgeEval/helpers/convert_sbd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyEdgeEval/helpers/convert_sbd.py b/pyEdgeEval/helpers/convert_sbd.py
index 45cc408..9f2a70f 100644
--- a/pyEdgeEval/helpers/convert_sbd.py
+++ b/pyEdgeEval/helpers/convert_sbd.py
@@ -375,6 +375,9 @@ def load_reanno_samples(path: str, new_loader: bool = False):
     if new_loader:
         print("not implemented yet")
         test = loadmat(path, True)["listTest"]
+        if isinstance(test, str):
+            # a single name is not wrapped in a list
+            test = [test]
         assert isinstance(
             test, (list, tuple)
         ), f".mat should contain lists but got {type(test)}"
-- 
2.43.0


From dc92487a1c2ed2dd521ec4807da10db000d86254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:12 +0000
Subject: [PATCH 29/32] fix: suppressed results were all saved under a garbled
 name

---
 pyEdgeEval/preprocess/nms/fast_nms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/preprocess/nms/fast_nms.py b/pyEdgeEval/preprocess/nms/fast_nms.py
index 5ed4dee..1fbfa9a 100644
--- a/pyEdgeEval/preprocess/nms/fast_nms.py
+++ b/pyEdgeEval/preprocess/nms/fast_nms.py
@@ -113,7 +113,7 @@ def nms_results(result_dir, save_dir, loader):
         os.makedirs(save_dir)
 
     for file in os.listdir(result_dir):
-        save_name = os.path.join(save_dir, f"{os.path.splitext(file[0])}.png")
+        save_name = os.path.join(save_dir, f"{os.path.splitext(file)[0]}.png")
         if os.path.isfile(save_name):
             print(f"file: {save_name} exists... skipping")
         img_path = os.path.join(result_dir, file)
-- 
2.43.0


From 0ac87ab0eee2dd1d15d37899eefc30177411771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:12 +0000
Subject: [PATCH 30/32] fix: existing suppressed results were overwritten
 instead of skipped

---
 pyEdgeEval/preprocess/nms/fast_nms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyEdgeEval/preprocess/nms/fast_nms.py b/pyEdgeEval/preprocess/nms/fast_nms.py
index 1fbfa9a..99464aa 100644
--- a/pyEdgeEval/preprocess/nms/fast_nms.py
+++ b/pyEdgeEval/preprocess/nms/fast_nms.py
@@ -116,6 +116,7 @@ def nms_results(result_dir, save_dir, loader):
         save_name = os.path.join(save_dir, f"{os.path.splitext(file)[0]}.png")
         if os.path.isfile(save_name):
             print(f"file: {save_name} exists... skipping")
+            continue
         img_path = os.path.join(result_dir, file)
         # load image
         img = loader(img_path)
-- 
2.43.0


From 58f5177db858ecba1296d21867223c4d9a17d05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:51 +0000
Subject: [PATCH 31/32] fix: test_edges: replace the last occurrence of the
 reference folder name only

Comparing trees below a root path which contains the name of the reference
folder (such as cityscapes_gtProc) looked for files in a folder that does not
exist.
---
 pyEdgeEval/helpers/convert_cityscapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index c048cc4..854f80d 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -214,7 +214,7 @@ def test_edges(
 ) -> None:
     edge_dir = osp.dirname(edge_file)
     edge_fn = osp.basename(edge_file)
-    test_dir = edge_dir.replace(orig_dir, test_dir)
+    test_dir = test_dir.join(edge_dir.rsplit(orig_dir, 1))
     test_file = osp.join(test_dir, edge_fn)
     test_file = test_file.replace(orig_suffix, test_suffix)
     _, ext = osp.splitext(edge_file)
-- 
2.43.0


From e8b9c95c39aa43747b222f12c809182f4a629d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:37 +0000
Subject: [PATCH 32/32] fix: the match of two edge maps does not depend on
 earlier matches

The random outlier edges of the assignment problem were drawn from a
generator seeded from the clock and never reset, so the counts of dense
maps changed from call to call, with the other thresholds of the call and
with the number of workers.
---
 pyEdgeEval/_lib/src/match.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyEdgeEval/_lib/src/match.cc b/pyEdgeEval/_lib/src/match.cc
index 92f022b..0ffb7d7 100644
--- a/pyEdgeEval/_lib/src/match.cc
+++ b/pyEdgeEval/_lib/src/match.cc
@@ -9,6 +9,7 @@
 #include "Point.hh"
 #include "Matrix.hh"
 #include "Array.hh"
+#include "Random.hh"
 #include "match.hh"
 #include "Timer.hh"
 
@@ -186,6 +187,9 @@ matchEdgeMaps (
         igraph(count,2) = (int) rint (edges[a].w * multiplier);
         count++;
     }
+    // The outlier edges are the same for every call: the match of two maps
+    // must not depend on what was matched before.
+    Random::rand.reseed (1);
     // outliers edges for map1, exclude diagonal
     for (int i = 0; i < n1; i++) {
         kOfN(d1,n1-1,outliers.data());
-- 
2.43.0

