From 7b2ff539de99fcadee5b1abc0abae80c9c256ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 01/20] fix: match estimations and ground truths one-to-one and
 keep unmatched estimations

get_perception_results matched an estimation again in every round, let several
estimations take the same ground truth, and reported the already matched
estimations (instead of the unmatched ones) as additional false positives.
---
 src/result/object.rs | 55 ++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/result/object.rs b/src/result/object.rs
index d679461..066468e 100644
--- a/src/result/object.rs
+++ b/src/result/object.rs
@@ -252,46 +252,41 @@ pub fn get_perception_results(
         let mut took_indices = Vec::new();
         let num_estimated_objects = estimated_objects.len();
         for _ in 0..num_estimated_objects {
-            if score_table
-                .iter()
-                .all(|row| row.iter().all(|col| col.is_none()))
-            {
-                break;
-            }
-            for (est_idx, row_table) in score_table.iter_mut().enumerate() {
-                let (gt_idx, _) = row_table.iter().enumerate().fold(
-                    (usize::MAX, f64::MAX),
-                    |(a_idx, a), (b_idx, b)| match b {
-                        Some(b) => {
-                            if a < *b {
-                                (a_idx, a)
-                            } else {
-                                (b_idx, *b)
-                            }
+            // The pair with the best score in the remaining table
+            let mut best: Option<(usize, usize, f64)> = None;
+            for (est_idx, row_table) in score_table.iter().enumerate() {
+                for (gt_idx, score) in row_table.iter().enumerate() {
+                    if let Some(score) = score {
+                        if best.map_or(true, |(_, _, best_score)| *score < best_score) {
+                            best = Some((est_idx, gt_idx, *score));
                         }
-                        None => (a_idx, a),
-                    },
-                );
-
-                if gt_idx == usize::MAX {
-                    continue;
+                    }
                 }
+            }
 
-                results.push(PerceptionResult {
-                    estimated_object: estimated_objects[est_idx].to_owned(),
-                    ground_truth_object: Some(ground_truth_objects[gt_idx].to_owned()),
-                });
+            let (est_idx, gt_idx) = match best {
+                Some((est_idx, gt_idx, _)) => (est_idx, gt_idx),
+                None => break,
+            };
 
-                row_table[gt_idx] = None;
-                took_indices.push(est_idx);
-            }
+            results.push(PerceptionResult {
+                estimated_object: estimated_objects[est_idx].to_owned(),
+                ground_truth_object: Some(ground_truth_objects[gt_idx].to_owned()),
+            });
+
+            // Both objects of the pair have been taken
+            score_table[est_idx].fill(None);
+            score_table
+                .iter_mut()
+                .for_each(|row_table| row_table[gt_idx] = None);
+            took_indices.push(est_idx);
         }
 
         if took_indices.len() < num_estimated_objects {
             let index_list = (0..num_estimated_objects).collect::<Vec<usize>>();
             let mut fp_estimated_objects = Vec::new();
             index_list.iter().for_each(|idx| {
-                if took_indices.contains(idx) {
+                if !took_indices.contains(idx) {
                     fp_estimated_objects.push(estimated_objects[*idx].to_owned());
                 }
             });
-- 
2.43.0


From ad8d4cfae25fe84fd1a3c8fed3ed3b626ee3ea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 02/20] fix: compute AP over confidence-ranked results with the
 interpolated envelope

The precision-recall curve was accumulated in insertion order instead of
descending confidence, the envelope was built from low to high recall without
the recall 0.0 end point (a perfect detection scored 0.0), and a label with
ground truths but without any result panicked.
---
 src/metrics/detection.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index f6600db..a5b339c 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -152,14 +152,21 @@ impl<'a> Ap<'a> {
         if self.results.is_empty() && *self.num_ground_truth == 0 {
             (Vec::new(), Vec::new())
         } else {
-            let mut max_precision_list = vec![*precision_list.last().unwrap()];
-            let mut max_recall_list = vec![*recall_list.last().unwrap()];
-            for i in 0..recall_list.len() - 1 {
-                if max_precision_list.last().unwrap() < &precision_list[i] {
+            let mut max_precision_list: Vec<f64> = Vec::new();
+            let mut max_recall_list: Vec<f64> = Vec::new();
+            // from the highest recall down to the lowest one
+            for i in (0..recall_list.len()).rev() {
+                if max_precision_list
+                    .last()
+                    .map_or(true, |max_precision| max_precision < &precision_list[i])
+                {
                     max_precision_list.push(precision_list[i]);
                     max_recall_list.push(recall_list[i]);
                 }
             }
+            // the highest precision spans down to the recall 0.0
+            max_precision_list.push(max_precision_list.last().copied().unwrap_or(0.0));
+            max_recall_list.push(0.0);
             (max_precision_list, max_recall_list)
         }
     }
@@ -211,7 +218,15 @@ impl<'a> Ap<'a> {
             let mut tp_list = vec![0.0; num_results];
             let mut fp_list = vec![0.0; num_results];
 
-            self.results.iter().enumerate().for_each(|(i, result)| {
+            // rank results in descending order of confidence
+            let mut results = self.results.iter().collect::<Vec<_>>();
+            results.sort_by(|a, b| {
+                b.estimated_object
+                    .confidence
+                    .total_cmp(&a.estimated_object.confidence)
+            });
+
+            results.iter().enumerate().for_each(|(i, result)| {
                 if result.is_result_correct(matching_mode, threshold).unwrap() {
                     tp_list[i] = tp_metrics.get_value(result);
                 } else {
-- 
2.43.0


From 2fb5d69966de384642a5b0499dee4550aaf38794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:31 +0000
Subject: [PATCH 03/20] fix: skip unknown log tokens while iterating the logs
 of a map

NuScenes::load() only warns when a map refers to an unknown log, but iterating
over the logs of such a map panicked.
---
 src/dataset/nuscenes/iter_impl/log.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dataset/nuscenes/iter_impl/log.rs b/src/dataset/nuscenes/iter_impl/log.rs
index 68479ca..b1af22d 100644
--- a/src/dataset/nuscenes/iter_impl/log.rs
+++ b/src/dataset/nuscenes/iter_impl/log.rs
@@ -22,8 +22,10 @@ where
     type Item = WithDataset<'a, Log>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // NOTE: unknown log tokens in map are tolerated, see NuScenes::load()
+        let dataset = self.dataset;
         self.tokens_iter
-            .next()
-            .map(|token| self.refer(&self.dataset.log_map[token]))
+            .find_map(|token| dataset.log_map.get(token))
+            .map(|log| self.refer(log))
     }
 }
-- 
2.43.0


From 63a9325e3b88415c95052ef98accca2875a442f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 04/20] fix: return an error for an unknown sample token in
 SceneInternal::from

As InstanceInternal::from does, instead of panicking.
---
 src/dataset/nuscenes/internal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dataset/nuscenes/internal.rs b/src/dataset/nuscenes/internal.rs
index 8bbdf18..9a891cb 100644
--- a/src/dataset/nuscenes/internal.rs
+++ b/src/dataset/nuscenes/internal.rs
@@ -131,7 +131,9 @@ impl SceneInternal {
         let mut sample_token_opt = Some(&first_sample_token);
 
         while let Some(sample_token) = sample_token_opt {
-            let sample = &sample_map[sample_token];
+            let sample = sample_map
+                .get(sample_token)
+                .ok_or(NuScenesError::InternalBug)?;
             if &sample.token != sample_token {
                 return Err(NuScenesError::InternalBug);
             }
-- 
2.43.0


From 962febb58539b4b39efb54a4f0a7fb8da5657ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 05/20] fix: make instance_iter, map_iter and visibility_iter
 iterable

Their return types did not implement Iterator.
---
 src/dataset/nuscenes.rs                      | 2 +-
 src/dataset/nuscenes/iter_impl/map.rs        | 4 ++--
 src/dataset/nuscenes/iter_impl/visibility.rs | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index 1761c2d..f1234ca 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -661,7 +661,7 @@ impl NuScenes {
 
     pub fn instance_iter(
         &self,
-    ) -> Iter<'_, Instance, HashMapKeys<'_, LongToken, InstanceInternal>> {
+    ) -> Iter<'_, InstanceInternal, HashMapKeys<'_, LongToken, InstanceInternal>> {
         self.refer_iter(self.instance_map.keys())
     }
 
diff --git a/src/dataset/nuscenes/iter_impl/map.rs b/src/dataset/nuscenes/iter_impl/map.rs
index 6354e05..5376d16 100644
--- a/src/dataset/nuscenes/iter_impl/map.rs
+++ b/src/dataset/nuscenes/iter_impl/map.rs
@@ -13,13 +13,13 @@ impl<'a> WithDataset<'a, Map> {
 
 impl<'a, It> Iterator for Iter<'a, Map, It>
 where
-    It: Iterator<Item = ShortToken>,
+    It: Iterator<Item = &'a ShortToken>,
 {
     type Item = WithDataset<'a, Map>;
 
     fn next(&mut self) -> Option<Self::Item> {
         self.tokens_iter
             .next()
-            .map(|token| self.refer(&self.dataset.map_map[&token]))
+            .map(|token| self.refer(&self.dataset.map_map[token]))
     }
 }
diff --git a/src/dataset/nuscenes/iter_impl/visibility.rs b/src/dataset/nuscenes/iter_impl/visibility.rs
index 524e54a..0f8f197 100644
--- a/src/dataset/nuscenes/iter_impl/visibility.rs
+++ b/src/dataset/nuscenes/iter_impl/visibility.rs
@@ -2,13 +2,13 @@ use super::super::{iter::Iter, schema::Visibility, WithDataset};
 
 impl<'a, It> Iterator for Iter<'a, Visibility, It>
 where
-    It: Iterator<Item = String>,
+    It: Iterator<Item = &'a String>,
 {
     type Item = WithDataset<'a, Visibility>;
 
     fn next(&mut self) -> Option<Self::Item> {
         self.tokens_iter
             .next()
-            .map(|token| self.refer(&self.dataset.visibility_map[&token]))
+            .map(|token| self.refer(&self.dataset.visibility_map[token]))
     }
 }
-- 
2.43.0


From 1dd7d3a4b794cff197930fada1a9c16973007ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:46 +0000
Subject: [PATCH 06/20] fix: load samples without any annotation

A sample in which no object is annotated was reported as an internal bug.
---
 src/dataset/nuscenes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index f1234ca..97f084c 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -537,7 +537,7 @@ impl NuScenes {
                     .ok_or(NuScenesError::InternalBug)?;
                 let annotation_tokens = sample_to_annotation_groups
                     .remove(&sample_token)
-                    .ok_or(NuScenesError::InternalBug)?;
+                    .unwrap_or_default();
                 let internal = SampleInternal::from(sample, annotation_tokens, sample_data_tokens);
                 Ok((sample_token, internal))
             })
-- 
2.43.0


From 1143c11e67b740dc77959d2a8e9e7f0d7420c6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 07/20] fix: load the records of a dataset in a reproducible
 order

The annotations and sample data of a sample, and all records sharing a
timestamp, were listed in the random iteration order of HashMap.
---
 src/dataset/nuscenes.rs        | 18 ++++++++++++++----
 src/dataset/nuscenes/schema.rs |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index 97f084c..a03da00 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -503,6 +503,9 @@ impl NuScenes {
                 )
             })
             .into_group_map();
+        sample_to_annotation_groups
+            .values_mut()
+            .for_each(|tokens| tokens.sort());
 
         // keep track of relations from samples to sample data
         let mut sample_to_sample_data_groups = sample_data_map
@@ -511,6 +514,9 @@ impl NuScenes {
                 (sample_data.sample_token.clone(), sample_data_token.clone())
             })
             .into_group_map();
+        sample_to_sample_data_groups
+            .values_mut()
+            .for_each(|tokens| tokens.sort());
 
         // convert some types for ease of usage
         let instance_internal_map = instance_map
@@ -549,7 +555,8 @@ impl NuScenes {
                 .iter()
                 .map(|(sample_token, sample)| (sample_token, sample.timestamp))
                 .collect::<Vec<_>>();
-            sorted_pairs.sort_by_cached_key(|(_, timestamp)| *timestamp);
+            sorted_pairs
+                .sort_by_cached_key(|(token, timestamp)| (*timestamp, (*token).clone()));
 
             sorted_pairs
                 .into_iter()
@@ -563,7 +570,8 @@ impl NuScenes {
                 .iter()
                 .map(|(sample_token, sample)| (sample_token, sample.timestamp))
                 .collect::<Vec<_>>();
-            sorted_pairs.sort_by_cached_key(|(_, timestamp)| *timestamp);
+            sorted_pairs
+                .sort_by_cached_key(|(token, timestamp)| (*timestamp, (*token).clone()));
 
             sorted_pairs
                 .into_iter()
@@ -577,7 +585,8 @@ impl NuScenes {
                 .iter()
                 .map(|(sample_token, sample)| (sample_token, sample.timestamp))
                 .collect::<Vec<_>>();
-            sorted_pairs.sort_by_cached_key(|(_, timestamp)| *timestamp);
+            sorted_pairs
+                .sort_by_cached_key(|(token, timestamp)| (*timestamp, (*token).clone()));
 
             sorted_pairs
                 .into_iter()
@@ -607,7 +616,8 @@ impl NuScenes {
                     Ok((scene_token, timestamp))
                 })
                 .collect::<NuScenesResult<Vec<_>>>()?;
-            sorted_pairs.sort_by_cached_key(|(_, timestamp)| *timestamp);
+            sorted_pairs
+                .sort_by_cached_key(|(token, timestamp)| (*timestamp, (*token).clone()));
 
             sorted_pairs
                 .into_iter()
diff --git a/src/dataset/nuscenes/schema.rs b/src/dataset/nuscenes/schema.rs
index 61d43fa..b6ac1e4 100644
--- a/src/dataset/nuscenes/schema.rs
+++ b/src/dataset/nuscenes/schema.rs
@@ -12,7 +12,7 @@ pub const SHORT_TOKEN_LENGTH: usize = 16;
 
 pub type CameraIntrinsic = Option<[[f64; 3]; 3]>;
 
-#[derive(Debug, Clone, PartialEq, Eq, Hash)]
+#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub struct LongToken([u8; LONG_TOKEN_LENGTH]);
 
 impl Display for LongToken {
-- 
2.43.0


From 5eaeeb4ec76f92584159fa47cf17eae096027a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:31 +0000
Subject: [PATCH 08/20] fix: print the metrics scores in a reproducible order

AP and APH were printed in the random iteration order of HashMap.
---
 src/metrics/detection.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index a5b339c..d878be3 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -1,7 +1,7 @@
 use super::tp_metrics::{TPMetrics, TPMetricsAP, TPMetricsAPH};
 use crate::{label::Label, matching::MatchingMode, result::object::PerceptionResult};
 use std::{
-    collections::HashMap,
+    collections::{BTreeMap, HashMap},
     fmt::{Display, Formatter, Result as FormatResult},
 };
 
@@ -11,7 +11,7 @@ pub(crate) struct DetectionMetricsScore {
     pub(crate) target_labels: Vec<Label>,
     pub(crate) matching_mode: MatchingMode,
     pub(crate) thresholds: Vec<f64>,
-    pub(crate) scores: HashMap<String, Vec<f64>>,
+    pub(crate) scores: BTreeMap<String, Vec<f64>>,
 }
 
 impl DetectionMetricsScore {
@@ -29,7 +29,7 @@ impl DetectionMetricsScore {
         matching_mode: &MatchingMode,
         matching_thresholds: &Vec<f64>,
     ) -> Self {
-        let mut scores = HashMap::new();
+        let mut scores = BTreeMap::new();
         let num_targets = target_labels.len();
         let mut ap_list = vec![0.0; num_targets];
         let mut aph_list = vec![0.0; num_targets];
-- 
2.43.0


From 25ad63e9755cb881d642115840c2a1882d52c8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 09/20] fix: determine the dataset of a scenario unambiguously

A scenario without any dataset panicked, and for an entry with several
datasets the path and version depended on the iteration order of HashMap.
---
 src/config.rs        | 11 +++++------
 src/config/schema.rs |  4 ++--
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 4e24f01..8b1c553 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -78,12 +78,11 @@ impl PerceptionEvaluationConfig {
         let datasets = scenario.evaluation.datasets;
 
         // TODO
-        let mut dataset_path = PathBuf::new();
-        let mut version = String::new();
-        for (key, value) in &datasets[0] {
-            dataset_path.set_file_name(key);
-            version = value.version.clone();
-        }
+        let (dataset_path, version) = datasets
+            .first()
+            .and_then(|dataset| dataset.iter().next())
+            .map(|(key, value)| (PathBuf::from(key), value.version.clone()))
+            .ok_or_else(|| ConfigError::KeyError(String::from("Datasets")))?;
 
         let params = scenario.evaluation.config.params;
         let target_labels = params.target_labels.iter().map(|s| s as &str).collect_vec();
diff --git a/src/config/schema.rs b/src/config/schema.rs
index 0a05de1..b7998ac 100644
--- a/src/config/schema.rs
+++ b/src/config/schema.rs
@@ -1,4 +1,4 @@
-use std::{collections::HashMap, path::PathBuf};
+use std::{collections::BTreeMap, path::PathBuf};
 
 use serde::{Deserialize, Serialize};
 
@@ -27,7 +27,7 @@ pub(super) struct Evaluation {
     #[serde(rename = "UseCaseFormatVersion")]
     pub(super) version: String,
     #[serde(rename = "Datasets")]
-    pub(super) datasets: Vec<HashMap<String, Dataset>>,
+    pub(super) datasets: Vec<BTreeMap<String, Dataset>>,
     #[serde(rename = "Conditions")]
     pub(super) conditions: Conditions,
     #[serde(rename = "PerceptionEvaluationConfig")]
-- 
2.43.0


From a1861bebee51e3fec935768c1ee6b9d46b7d2d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 10/20] fix: return an error for an unknown task or frame name
 in a scenario

Instead of panicking while the scenario file is deserialized.
---
 src/config/schema.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/config/schema.rs b/src/config/schema.rs
index b7998ac..730dc46 100644
--- a/src/config/schema.rs
+++ b/src/config/schema.rs
@@ -89,7 +89,7 @@ mod evaluation_task_serde {
     use std::str::FromStr;
 
     use crate::evaluation_task::EvaluationTask;
-    use serde::{Deserialize, Deserializer, Serializer};
+    use serde::{de::Error as DeserializeError, Deserialize, Deserializer, Serializer};
 
     pub fn serialize<S>(value: &EvaluationTask, serializer: S) -> Result<S::Ok, S::Error>
     where
@@ -104,15 +104,14 @@ mod evaluation_task_serde {
         D: Deserializer<'de>,
     {
         let task_str = String::deserialize(deserializer)?;
-        let task = EvaluationTask::from_str(&task_str).unwrap(); // TODO: update result type
-        Ok(task)
+        EvaluationTask::from_str(&task_str).map_err(D::Error::custom)
     }
 }
 
 mod frame_id_serde {
     use std::str::FromStr;
 
-    use serde::{Deserialize, Deserializer, Serializer};
+    use serde::{de::Error as DeserializeError, Deserialize, Deserializer, Serializer};
 
     use crate::frame_id::FrameID;
 
@@ -129,7 +128,6 @@ mod frame_id_serde {
         D: Deserializer<'de>,
     {
         let frame_id_str = String::deserialize(deserializer)?;
-        let frame_id = FrameID::from_str(&frame_id_str).unwrap(); // TODO
-        Ok(frame_id)
+        FrameID::from_str(&frame_id_str).map_err(D::Error::custom)
     }
 }
-- 
2.43.0


From 1e8ff5e4ab6dc5a6e08de5249d1a87dfd9c7d951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:47 +0000
Subject: [PATCH 11/20] fix: return an error if a configuration cannot be set
 up

PerceptionEvaluationConfig::from panicked when the log file could not be
created or when a logger had already been configured in the process.
---
 src/config.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 8b1c553..c776dbb 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -8,7 +8,7 @@ use itertools::Itertools;
 use serde::de::DeserializeOwned;
 use std::{
     fs::File,
-    io::{BufReader, Error as IoError},
+    io::{BufReader, Error as IoError, ErrorKind},
     path::{Path, PathBuf},
     vec,
 };
@@ -93,7 +93,7 @@ impl PerceptionEvaluationConfig {
             params.min_point_number,
             params.target_uuids,
         )
-        .unwrap(); // TODO
+        .map_err(|err| ConfigError::KeyError(err.to_string()))?;
         let metrics_params = MetricsParams::new(
             &target_labels,
             params.center_distance_threshold,
@@ -101,13 +101,14 @@ impl PerceptionEvaluationConfig {
             params.iou_2d_threshold,
             params.iou_3d_threshold,
         )
-        .unwrap(); // TODO
+        .map_err(|err| ConfigError::KeyError(err.to_string()))?;
 
         let result_dir = Path::new(result_dir);
         let log_dir = result_dir.join("log");
         let viz_dir = result_dir.join("visualize");
 
-        configure_logger(&log_dir, log::Level::Debug).unwrap();
+        configure_logger(&log_dir, log::Level::Debug)
+            .map_err(|err| IoError::new(ErrorKind::Other, err.to_string()))?;
 
         let config = Self {
             version,
-- 
2.43.0


From b0e760b5ca567188102fb85d821187f6800681bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 12/20] fix: compute the height of the intersection in 3D IoU,
 not of the union

---
 src/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matching.rs b/src/matching.rs
index 5c2a90c..b51ffce 100644
--- a/src/matching.rs
+++ b/src/matching.rs
@@ -216,7 +216,7 @@ fn get_intersection_height(
             ground_truth_object.position[2] - ground_truth_object.size[2] * 0.5,
         ]
         .into_iter()
-        .min_by(|a, b| a.partial_cmp(b).unwrap())
+        .max_by(|a, b| a.partial_cmp(b).unwrap())
         .unwrap()
     };
 
@@ -226,7 +226,7 @@ fn get_intersection_height(
             ground_truth_object.position[2] + ground_truth_object.size[2] * 0.5,
         ]
         .into_iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
+        .min_by(|a, b| a.partial_cmp(b).unwrap())
         .unwrap()
     };
 
-- 
2.43.0


From f26df4f215b57899510bc5c5e31fbf33b0891dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 13/20] fix: write and read timestamps in microseconds

Timestamps were written in seconds but read in microseconds, and reading lost
precision beyond 2^53 nanoseconds.
---
 src/dataset/nuscenes/schema.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/dataset/nuscenes/schema.rs b/src/dataset/nuscenes/schema.rs
index b6ac1e4..692b9bd 100644
--- a/src/dataset/nuscenes/schema.rs
+++ b/src/dataset/nuscenes/schema.rs
@@ -579,8 +579,8 @@ mod timestamp_serde {
     where
         S: Serializer,
     {
-        let timestamp = value.timestamp_nanos_opt().unwrap() as f64 / 1_000_000_000.0;
-        serializer.serialize_f64(timestamp)
+        let timestamp_us = value.timestamp_micros() as f64; // in us
+        serializer.serialize_f64(timestamp_us)
     }
 
     pub fn deserialize<'de, D>(deserializer: D) -> Result<NaiveDateTime, D::Error>
@@ -588,10 +588,7 @@ mod timestamp_serde {
         D: Deserializer<'de>,
     {
         let timestamp_us = f64::deserialize(deserializer)?; // in us
-        let timestamp_ns = (timestamp_us * 1000.0) as u64; // in ns
-        let secs = timestamp_ns / 1_000_000_000;
-        let nsecs = timestamp_ns % 1_000_000_000;
-        let datetime = NaiveDateTime::from_timestamp_opt(secs as i64, nsecs as u32);
+        let datetime = NaiveDateTime::from_timestamp_micros(timestamp_us.round() as i64);
         match datetime {
             Some(value) => Ok(value),
             None => Err(D::Error::custom("Could not load timestamp")),
-- 
2.43.0


From 5c9bf1f235e81039184734b74eb9e40a6cac4bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 14/20] fix: rotate positions and footprints by the quaternion,
 not by its inverse

The row vectors were multiplied with the rotation matrix of column vectors.
---
 src/object/object3d.rs | 2 +-
 src/utils/math.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/object/object3d.rs b/src/object/object3d.rs
index 1f76a00..498eb0a 100644
--- a/src/object/object3d.rs
+++ b/src/object/object3d.rs
@@ -436,7 +436,7 @@ impl DynamicObject {
         center2corners
             .row_iter()
             .map(|corner| {
-                let mat = corner * rot + position;
+                let mat = corner * rot.transpose() + position;
                 [mat[(0, 0)], mat[(0, 1)], mat[(0, 2)]]
             })
             .collect()
diff --git a/src/utils/math.rs b/src/utils/math.rs
index 303b72f..9856ffd 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -149,7 +149,7 @@ pub fn translate_inv(xyz1: &[f64; 3], xyz2: &[f64; 3]) -> [f64; 3] {
 /// ```
 pub fn rotate(xyz: &[f64; 3], q: &[f64; 4]) -> [f64; 3] {
     let rot = quaternion2rotation(q);
-    let position = PositionMatrix::new(xyz[0], xyz[1], xyz[2]) * rot;
+    let position = PositionMatrix::new(xyz[0], xyz[1], xyz[2]) * rot.transpose();
     let row = position.row(0);
     [row[0], row[1], row[2]]
 }
-- 
2.43.0


From eb23805f709d768db867cf2a7a517e4d1f37d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 15/20] fix: rotate orientations with the quaternion product

rotate_q multiplied the quaternions element-wise.
---
 src/utils/math.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 9856ffd..808a1d0 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -192,11 +192,12 @@ pub fn rotate_inv(xyz: &[f64; 3], q: &[f64; 4]) -> [f64; 3] {
 /// assert_eq!(ret, [1.0, 0.0, 0.0, 0.0]);
 /// ```
 pub fn rotate_q(q1: &[f64; 4], q2: &[f64; 4]) -> [f64; 4] {
-    let mut ret = q1.to_owned();
-    for i in 0..4 {
-        ret[i] *= q2[i];
-    }
-    ret
+    [
+        q2[0] * q1[0] - q2[1] * q1[1] - q2[2] * q1[2] - q2[3] * q1[3],
+        q2[0] * q1[1] + q2[1] * q1[0] + q2[2] * q1[3] - q2[3] * q1[2],
+        q2[0] * q1[2] - q2[1] * q1[3] + q2[2] * q1[0] + q2[3] * q1[1],
+        q2[0] * q1[3] + q2[1] * q1[2] - q2[2] * q1[1] + q2[3] * q1[0],
+    ]
 }
 
 /// Inverse rotate `q1` with input `q2`.
-- 
2.43.0


From 0e8a88bf5ea86e7193eb840415ff69906ab6e0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:13 +0000
Subject: [PATCH 16/20] fix: distinguish all quadrants of roll and yaw

atan folded opposite headings onto each other.
---
 src/utils/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 808a1d0..7a8fba5 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -52,13 +52,13 @@ pub fn quaternion2rotation(q: &[f64; 4]) -> RotationMatrix<f64> {
 /// ```
 pub fn quaternion2euler(q: &[f64; 4]) -> [f64; 3] {
     let [q0, q1, q2, q3] = q;
-    let roll = (2.0 * (q0 * q1 + q2 * q3) / (1.0 - 2.0 * (q1.powi(2) + q2.powi(2)))).atan();
+    let roll = (2.0 * (q0 * q1 + q2 * q3)).atan2(1.0 - 2.0 * (q1.powi(2) + q2.powi(2)));
     let pitch = -0.5 * PI
         + 2.0
             * ((1.0 + 2.0 * (q0 * q2 - q1 * q3)) / (1.0 - 2.0 * (q0 * q2 - q1 * q3)))
                 .sqrt()
                 .atan();
-    let yaw = (2.0 * (q0 * q3 + q1 * q2) / (1.0 - 2.0 * (q2.powi(2) + q3.powi(2)))).atan();
+    let yaw = (2.0 * (q0 * q3 + q1 * q2)).atan2(1.0 - 2.0 * (q2.powi(2) + q3.powi(2)));
     [roll, pitch, yaw]
 }
 
-- 
2.43.0


From dfec8dca3c1f8fe0f017b4ad7ce5f37c7bde88ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 17/20] fix: load one point per row of a point cloud matrix

The points of the file were scattered over the columns of the matrix.
---
 src/dataset/nuscenes/iter_impl/sample_data.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dataset/nuscenes/iter_impl/sample_data.rs b/src/dataset/nuscenes/iter_impl/sample_data.rs
index 7531258..ab5ec2d 100644
--- a/src/dataset/nuscenes/iter_impl/sample_data.rs
+++ b/src/dataset/nuscenes/iter_impl/sample_data.rs
@@ -6,7 +6,7 @@ use super::super::{
     {LoadedSampleData, PointCloudMatrix, WithDataset},
 };
 // use memmap::MmapOptions;
-use nalgebra::{Dyn, VecStorage, U5};
+use nalgebra::{Dyn, U5};
 use safe_transmute::guard::SingleManyGuard;
 use std::{
     fs::File,
@@ -50,8 +50,9 @@ impl<'a> WithDataset<'a, SampleData> {
                         let n_rows = values.len() / 5;
 
                         // TODO: this step takes one copy of the buffer. try to use more efficient impl.
-                        let storage = VecStorage::new(Dyn(n_rows), U5, Vec::from(values));
-                        let matrix = PointCloudMatrix::from_data(storage);
+                        // NOTE: the points are stored one after another in the file
+                        let matrix =
+                            PointCloudMatrix::from_row_slice_generic(Dyn(n_rows), U5, values);
                         LoadedSampleData::PointCloud(matrix)
                     }
                     _ => {
-- 
2.43.0


From bb9c096fefc9fcc299e349437f50c807354f7876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:24 +0000
Subject: [PATCH 18/20] fix: count ground truths once if several target labels
 name the same label

---
 src/manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/manager.rs b/src/manager.rs
index 96ea69b..8922a42 100644
--- a/src/manager.rs
+++ b/src/manager.rs
@@ -128,7 +128,7 @@ impl<'a> PerceptionEvaluationManager<'a> {
 
         self.frame_results.iter().for_each(|frame| {
             let mut result_map = hash_results(frame.results(), target_labels);
-            let num_gt_map = hash_num_objects(&frame.frame_ground_truth().objects, target_labels);
+            let mut num_gt_map = hash_num_objects(&frame.frame_ground_truth().objects, target_labels);
             target_labels.iter().for_each(|label| {
                 if let Some(results) = scene_results.get_mut(label) {
                     if let Some(result) = result_map.get_mut(label) {
@@ -136,7 +136,7 @@ impl<'a> PerceptionEvaluationManager<'a> {
                     }
                 };
                 if let Some(num_gts) = num_scene_gt.get_mut(label) {
-                    if let Some(num_gt) = num_gt_map.get(label) {
+                    if let Some(num_gt) = num_gt_map.remove(label) {
                         *num_gts += num_gt
                     }
                 };
-- 
2.43.0


From 1ad19be0b35779827823acc2d0526ba6291a3c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 19/20] fix: return None if there is no threshold for a target
 label

Instead of panicking, as the callers of get_label_threshold expect.
---
 src/threshold.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/threshold.rs b/src/threshold.rs
index cad04ca..b62a017 100644
--- a/src/threshold.rs
+++ b/src/threshold.rs
@@ -83,8 +83,7 @@ where
 {
     if target_labels.contains(label) {
         let index = target_labels.iter().position(|v| v == label).unwrap();
-        let value = &thresholds[index];
-        Some(*value)
+        thresholds.get(index).copied()
     } else {
         None
     }
-- 
2.43.0


From 8b779e84283ce5ecfb217725627eb7838a72fca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 20/20] fix: log at the Trace level if it is requested

---
 src/utils/logger.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/utils/logger.rs b/src/utils/logger.rs
index 5ffa2df..7bc1e79 100644
--- a/src/utils/logger.rs
+++ b/src/utils/logger.rs
@@ -32,13 +32,7 @@ pub fn configure_logger(log_dir: &Path, level: Level) -> LoggerResult<()> {
         .encoder(Box::new(PatternEncoder::new("{l} - {m}\n")))
         .build(log_dir.join("output.log"))?;
 
-    let level_filter: LevelFilter = match level {
-        Level::Debug => LevelFilter::Debug,
-        Level::Info => LevelFilter::Info,
-        Level::Warn => LevelFilter::Warn,
-        Level::Error => LevelFilter::Error,
-        _ => LevelFilter::Info,
-    };
+    let level_filter: LevelFilter = level.to_level_filter();
 
     let config: Config = Config::builder()
         .appender(Appender::builder().build("logfile", Box::new(logfile)))
-- 
2.43.0

