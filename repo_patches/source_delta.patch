From c040744465b6db940b2c9a40e5a3808124a7863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:36 +0000
Subject: [PATCH 01/32] fix: match prefixes literally when removing entries by
 prefix

LIKE treats '_' and '%' in the prefix as wildcards and ignores the case of ASCII letters, so entries
of units whose identifiers do not start with the prefix were removed as well.
---
 src/blacklist.rs        | 7 ++++---
 src/practice_deltas.rs  | 7 ++++---
 src/practice_rewards.rs | 4 ++--
 src/practice_stats.rs   | 7 ++++---
 4 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/blacklist.rs b/src/blacklist.rs
index e93ab9b..1f9cb6c 100644
--- a/src/blacklist.rs
+++ b/src/blacklist.rs
@@ -134,9 +134,10 @@ impl LocalBlacklist {
     fn remove_prefix_from_blacklist_helper(&mut self, prefix: &str) -> Result<()> {
         // Search for all the entries with the given prefix.
         let connection = self.connection.lock();
-        let mut stmt =
-            connection.prepare_cached("SELECT unit_id from blacklist WHERE unit_id LIKE $1;")?;
-        let mut rows = stmt.query(params![format!("{}%", prefix)])?;
+        let mut stmt = connection.prepare_cached(
+            "SELECT unit_id from blacklist WHERE substr(unit_id, 1, length($1)) = $1;",
+        )?;
+        let mut rows = stmt.query(params![prefix])?;
 
         // Remove all the entries with the given prefix.
         let mut stmt = connection.prepare_cached("DELETE FROM blacklist WHERE unit_id = $1")?;
diff --git a/src/practice_deltas.rs b/src/practice_deltas.rs
index aa62749..8b85086 100644
--- a/src/practice_deltas.rs
+++ b/src/practice_deltas.rs
@@ -162,10 +162,11 @@ impl LocalPracticeDeltas {
     /// Helper function to remove all the deltas from units that match the given prefix.
     fn remove_deltas_with_prefix_helper(&mut self, prefix: &str) -> Result<()> {
         let connection = self.connection.lock();
-        let mut uid_stmt =
-            connection.prepare_cached("SELECT unit_uid FROM uids WHERE unit_id LIKE $1;")?;
+        let mut uid_stmt = connection.prepare_cached(
+            "SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length($1)) = $1;",
+        )?;
         let uids = uid_stmt
-            .query_map(params![format!("{}%", prefix)], |row| row.get(0))?
+            .query_map(params![prefix], |row| row.get(0))?
             .map(|r| r.context("failed to retrieve UIDs from practice deltas DB"))
             .collect::<Result<Vec<i64>, _>>()?;
 
diff --git a/src/practice_rewards.rs b/src/practice_rewards.rs
index 4a028c0..3c94deb 100644
--- a/src/practice_rewards.rs
+++ b/src/practice_rewards.rs
@@ -252,8 +252,8 @@ impl LocalPracticeRewards {
         // Get all the UIDs for the units that match the prefix.
         let connection = self.connection.lock();
         for row in connection
-            .prepare("SELECT unit_uid FROM uids WHERE unit_id LIKE ?1")?
-            .query_map(params![format!("{}%", prefix)], |row| row.get(0))?
+            .prepare("SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length(?1)) = ?1")?
+            .query_map(params![prefix], |row| row.get(0))?
         {
             let unit_uid: i64 = row?;
             connection.execute(
diff --git a/src/practice_stats.rs b/src/practice_stats.rs
index a05194e..def10f7 100644
--- a/src/practice_stats.rs
+++ b/src/practice_stats.rs
@@ -185,10 +185,11 @@ impl LocalPracticeStats {
     fn remove_scores_with_prefix_helper(&mut self, prefix: &str) -> Result<()> {
         // Get all the UIDs for the units that match the prefix.
         let connection = self.connection.lock();
-        let mut uid_stmt =
-            connection.prepare_cached("SELECT unit_uid FROM uids WHERE unit_id LIKE $1;")?;
+        let mut uid_stmt = connection.prepare_cached(
+            "SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length($1)) = $1;",
+        )?;
         let uids = uid_stmt
-            .query_map(params![format!("{}%", prefix)], |row| row.get(0))?
+            .query_map(params![prefix], |row| row.get(0))?
             .map(|r| r.context("failed to retrieve UIDs from practice stats DB"))
             .collect::<Result<Vec<i64>, _>>()?;
 
-- 
2.43.0


From da0211fc3cea87e4e4959cbaedb27db3d5e8c436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:36 +0000
Subject: [PATCH 02/32] fix: keep exactly the given number of entries when
 trimming scores and deltas

Entries were kept by timestamp, so all the entries that share the timestamp of a kept one stayed.
---
 src/practice_deltas.rs | 4 ++--
 src/practice_stats.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/practice_deltas.rs b/src/practice_deltas.rs
index 8b85086..9c20495 100644
--- a/src/practice_deltas.rs
+++ b/src/practice_deltas.rs
@@ -148,8 +148,8 @@ impl LocalPracticeDeltas {
 
         for uid in uids {
             let mut stmt = connection.prepare_cached(
-                "DELETE FROM practice_deltas WHERE unit_uid = $1 AND timestamp NOT IN (
-                    SELECT timestamp FROM practice_deltas WHERE unit_uid = $1
+                "DELETE FROM practice_deltas WHERE unit_uid = $1 AND id NOT IN (
+                    SELECT id FROM practice_deltas WHERE unit_uid = $1
                     ORDER BY timestamp DESC LIMIT ?2);",
             )?;
             let _ = stmt.execute(params![uid, num_deltas])?;
diff --git a/src/practice_stats.rs b/src/practice_stats.rs
index def10f7..00e6052 100644
--- a/src/practice_stats.rs
+++ b/src/practice_stats.rs
@@ -169,8 +169,8 @@ impl LocalPracticeStats {
         // Delete the oldest trials for each UID but keep the most recent `num_scores` trials.
         for uid in uids {
             let mut stmt = connection.prepare_cached(
-                "DELETE FROM practice_stats WHERE unit_uid = $1 AND timestamp NOT IN (
-                    SELECT timestamp FROM practice_stats WHERE unit_uid = $1
+                "DELETE FROM practice_stats WHERE unit_uid = $1 AND id NOT IN (
+                    SELECT id FROM practice_stats WHERE unit_uid = $1
                     ORDER BY timestamp DESC LIMIT ?2);",
             )?;
             let _ = stmt.execute(params![uid, num_scores])?;
-- 
2.43.0


From 48a1ed9c9c338b999a07bc5ba2ac4d65e38a065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:12 +0000
Subject: [PATCH 03/32] fix: compare reward timestamps without overflowing

Rewards with timestamps more than 2^63 seconds apart made the comparison panic.
---
 src/practice_rewards.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/practice_rewards.rs b/src/practice_rewards.rs
index 3c94deb..60cfe8d 100644
--- a/src/practice_rewards.rs
+++ b/src/practice_rewards.rs
@@ -48,7 +48,7 @@ pub trait PracticeRewards {
 }
 
 /// Number of seconds in a day.
-const SECONDS_IN_DAY: i64 = 86_400;
+const SECONDS_IN_DAY: u64 = 86_400;
 
 /// The maximum difference in weights between two rewards to consider them similar.
 const WEIGHT_EPSILON: f32 = 0.1;
@@ -74,7 +74,7 @@ impl RewardCache {
             .and_then(|rewards| {
                 rewards.iter().find(|r| {
                     r.value == reward.value
-                        && (r.timestamp - reward.timestamp).abs() < SECONDS_IN_DAY
+                        && r.timestamp.abs_diff(reward.timestamp) < SECONDS_IN_DAY
                         && (r.weight - reward.weight).abs() < WEIGHT_EPSILON
                 })
             })
-- 
2.43.0


From a184ce76da7840b3e95c699d7486ec214573a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:12 +0000
Subject: [PATCH 04/32] fix: do not skip rewards because of rewards that are
 not stored

The cache of recent rewards kept the rewards of a transaction that failed, and those removed by
prefix or by trimming, so a later equal reward was skipped although none is stored.
---
 src/practice_rewards.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/practice_rewards.rs b/src/practice_rewards.rs
index 60cfe8d..039d993 100644
--- a/src/practice_rewards.rs
+++ b/src/practice_rewards.rs
@@ -282,16 +282,23 @@ impl PracticeRewards for LocalPracticeRewards {
         &mut self,
         rewards: &[UnitReward],
     ) -> Result<Vec<Ustr>, PracticeRewardsError> {
-        self.record_unit_rewards_helper(rewards)
-            .map_err(PracticeRewardsError::RecordRewards)
+        self.record_unit_rewards_helper(rewards).map_err(|e| {
+            // The transaction was rolled back, so the cache may list rewards that are not stored.
+            self.cache.cache.clear();
+            PracticeRewardsError::RecordRewards(e)
+        })
     }
 
     fn trim_rewards(&mut self, num_rewards: u32) -> Result<(), PracticeRewardsError> {
+        // The removed rewards must not cause new ones to be skipped.
+        self.cache.cache.clear();
         self.trim_rewards_helper(num_rewards)
             .map_err(PracticeRewardsError::TrimReward)
     }
 
     fn remove_rewards_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeRewardsError> {
+        // The removed rewards must not cause new ones to be skipped.
+        self.cache.cache.clear();
         self.remove_rewards_with_prefix_helper(prefix)
             .map_err(|e| PracticeRewardsError::RemovePrefix(prefix.to_string(), e))
     }
-- 
2.43.0


From 0db5a7b83a5341bd0702613db02151ccc772d767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:03 +0000
Subject: [PATCH 05/32] fix: share the score caches among threads

Trane is Sync and its scheduler is used through shared references, but the caches were RefCells:
concurrent calls panicked on a borrow that was in use, or raced on the maps.
---
 src/scheduler/unit_scorer.rs | 42 ++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 329fb57..a6c54a8 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -7,7 +7,7 @@
 
 use anyhow::{Result, anyhow};
 use chrono::Utc;
-use std::cell::RefCell;
+use parking_lot::{RwLock, RwLockReadGuard, RwLockWriteGuard};
 use ustr::{Ustr, UstrMap, UstrSet};
 
 use crate::{
@@ -34,23 +34,43 @@ pub(super) struct CachedScore {
     num_trials: usize,
 }
 
+/// A cache of values for each unit which can be shared among threads.
+struct UnitCache<T>(RwLock<UstrMap<T>>);
+
+impl<T> UnitCache<T> {
+    /// Constructs an empty cache.
+    fn new() -> Self {
+        Self(RwLock::new(UstrMap::default()))
+    }
+
+    /// Returns a read-only view of the cache.
+    fn borrow(&self) -> RwLockReadGuard<'_, UstrMap<T>> {
+        self.0.read()
+    }
+
+    /// Returns a mutable view of the cache.
+    fn borrow_mut(&self) -> RwLockWriteGuard<'_, UstrMap<T>> {
+        self.0.write()
+    }
+}
+
 /// Contains the logic to score units based on their previous scores and rewards, as well as the
 /// logic to cache those scores for efficiency.
 pub(super) struct UnitScorer {
     /// A mapping of exercise ID to cached score.
-    exercise_cache: RefCell<UstrMap<CachedScore>>,
+    exercise_cache: UnitCache<CachedScore>,
 
     /// A mapping of lesson ID to cached score.
-    lesson_cache: RefCell<UstrMap<Option<f32>>>,
+    lesson_cache: UnitCache<Option<f32>>,
 
     /// A mapping of course ID to cached score.
-    course_cache: RefCell<UstrMap<Option<f32>>>,
+    course_cache: UnitCache<Option<f32>>,
 
     /// A mapping of lesson ID to cached average number of trials.
-    lesson_trials_cache: RefCell<UstrMap<Option<f32>>>,
+    lesson_trials_cache: UnitCache<Option<f32>>,
 
     /// A mapping of course ID to cached average number of trials.
-    course_trials_cache: RefCell<UstrMap<Option<f32>>>,
+    course_trials_cache: UnitCache<Option<f32>>,
 
     /// The data used by the scheduler.
     data: SchedulerData,
@@ -72,11 +92,11 @@ impl UnitScorer {
     /// Constructs a new score cache.
     pub(super) fn new(data: SchedulerData, options: SchedulerOptions) -> Self {
         Self {
-            exercise_cache: RefCell::new(UstrMap::default()),
-            lesson_cache: RefCell::new(UstrMap::default()),
-            course_cache: RefCell::new(UstrMap::default()),
-            lesson_trials_cache: RefCell::new(UstrMap::default()),
-            course_trials_cache: RefCell::new(UstrMap::default()),
+            exercise_cache: UnitCache::new(),
+            lesson_cache: UnitCache::new(),
+            course_cache: UnitCache::new(),
+            lesson_trials_cache: UnitCache::new(),
+            course_trials_cache: UnitCache::new(),
             data,
             options,
             exercise_scorer: Box::new(PowerLawScorer {}),
-- 
2.43.0


From a3995f303b8500dd534566d5562e2da4360ca9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:06 +0000
Subject: [PATCH 06/32] fix: do not cache scores computed from stale or
 incomplete data

A score that was being computed while new practice was recorded was cached after the invalidation,
and so outlived that practice. A failed read was taken as an empty history, and the score computed
from it was reported and cached.
---
 src/scheduler/unit_scorer.rs | 246 +++++++++++++++++------------------
 1 file changed, 118 insertions(+), 128 deletions(-)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index a6c54a8..7b88f4e 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -8,6 +8,7 @@
 use anyhow::{Result, anyhow};
 use chrono::Utc;
 use parking_lot::{RwLock, RwLockReadGuard, RwLockWriteGuard};
+use std::sync::atomic::{AtomicU64, Ordering};
 use ustr::{Ustr, UstrMap, UstrSet};
 
 use crate::{
@@ -52,6 +53,15 @@ impl<T> UnitCache<T> {
     fn borrow_mut(&self) -> RwLockWriteGuard<'_, UstrMap<T>> {
         self.0.write()
     }
+
+    /// Stores a value, unless the generation changed since its computation started. In that case,
+    /// the value might be based on data that is no longer current.
+    fn store(&self, unit_id: Ustr, value: T, generation: &AtomicU64, started: u64) {
+        let mut cache = self.borrow_mut();
+        if generation.load(Ordering::SeqCst) == started {
+            cache.insert(unit_id, value);
+        }
+    }
 }
 
 /// Contains the logic to score units based on their previous scores and rewards, as well as the
@@ -72,6 +82,10 @@ pub(super) struct UnitScorer {
     /// A mapping of course ID to cached average number of trials.
     course_trials_cache: UnitCache<Option<f32>>,
 
+    /// The number of times that cached values were invalidated or could not be fully computed. Used
+    /// to avoid caching values that were computed from stale or incomplete data.
+    generation: AtomicU64,
+
     /// The data used by the scheduler.
     data: SchedulerData,
 
@@ -97,6 +111,7 @@ impl UnitScorer {
             course_cache: UnitCache::new(),
             lesson_trials_cache: UnitCache::new(),
             course_trials_cache: UnitCache::new(),
+            generation: AtomicU64::new(0),
             data,
             options,
             exercise_scorer: Box::new(PowerLawScorer {}),
@@ -116,37 +131,64 @@ impl UnitScorer {
             .unwrap_or_else(|| Utc::now().timestamp())
     }
 
+    /// Returns the current generation of the cached values.
+    fn current_generation(&self) -> u64 {
+        self.generation.load(Ordering::SeqCst)
+    }
+
+    /// Starts a new generation, so that the values being computed are not cached.
+    fn start_generation(&self) {
+        self.generation.fetch_add(1, Ordering::SeqCst);
+    }
+
+    /// Returns the given score or the default value if it could not be computed. In the latter case,
+    /// the values that are computed from it are not cached.
+    fn score_or_default<T: Default>(&self, score: Result<T>) -> T {
+        score.unwrap_or_else(|_| {
+            self.start_generation();
+            T::default()
+        })
+    }
+
     /// Removes the cached score for the given unit and all units affected by an update to its
     /// score.
     pub(super) fn invalidate_cached_score(&self, unit_id: Ustr) {
+        // Hold all the caches until the invalidation is complete. Otherwise, other threads could use
+        // stale cached values to compute the ones that were already removed.
+        let graph = self.data.unit_graph.read();
+        let mut exercise_cache = self.exercise_cache.borrow_mut();
+        let mut lesson_cache = self.lesson_cache.borrow_mut();
+        let mut course_cache = self.course_cache.borrow_mut();
+        let mut lesson_trials_cache = self.lesson_trials_cache.borrow_mut();
+        let mut course_trials_cache = self.course_trials_cache.borrow_mut();
+        self.start_generation();
+
         // Remove the unit itself from all caches.
-        self.exercise_cache.borrow_mut().remove(&unit_id);
-        self.lesson_cache.borrow_mut().remove(&unit_id);
-        self.course_cache.borrow_mut().remove(&unit_id);
-        self.lesson_trials_cache.borrow_mut().remove(&unit_id);
-        self.course_trials_cache.borrow_mut().remove(&unit_id);
+        exercise_cache.remove(&unit_id);
+        lesson_cache.remove(&unit_id);
+        course_cache.remove(&unit_id);
+        lesson_trials_cache.remove(&unit_id);
+        course_trials_cache.remove(&unit_id);
 
         // Invalidate the caches depending on the type of the unit.
-        let graph = self.data.unit_graph.read();
-        let mut exercise_cache = self.exercise_cache.borrow_mut();
         match graph.get_unit_type(unit_id) {
             // If the unit is an exercise, invalidate the cached score of its lesson and course. If
             // the unit is a lesson, invalidate the cached score of its course.
             Some(UnitType::Exercise) => {
                 if let Some(lesson_id) = graph.get_exercise_lesson(unit_id) {
-                    self.lesson_cache.borrow_mut().remove(&lesson_id);
-                    self.lesson_trials_cache.borrow_mut().remove(&lesson_id);
+                    lesson_cache.remove(&lesson_id);
+                    lesson_trials_cache.remove(&lesson_id);
                     if let Some(course_id) = graph.get_lesson_course(lesson_id) {
-                        self.course_cache.borrow_mut().remove(&course_id);
-                        self.course_trials_cache.borrow_mut().remove(&course_id);
+                        course_cache.remove(&course_id);
+                        course_trials_cache.remove(&course_id);
                     }
                 }
             }
             // For lessons, invalidate the scores of all exercises in the lesson.
             Some(UnitType::Lesson) => {
                 if let Some(course_id) = graph.get_lesson_course(unit_id) {
-                    self.course_cache.borrow_mut().remove(&course_id);
-                    self.course_trials_cache.borrow_mut().remove(&course_id);
+                    course_cache.remove(&course_id);
+                    course_trials_cache.remove(&course_id);
                 }
                 if let Some(exercise_ids) = graph.get_lesson_exercises(unit_id) {
                     for exercise_id in exercise_ids.iter() {
@@ -157,8 +199,6 @@ impl UnitScorer {
             // For courses, invalidate the scores of all lessons and exercises in the course.
             Some(UnitType::Course) => {
                 if let Some(lesson_ids) = graph.get_course_lessons(unit_id) {
-                    let mut lesson_cache = self.lesson_cache.borrow_mut();
-                    let mut lesson_trials_cache = self.lesson_trials_cache.borrow_mut();
                     for lesson_id in lesson_ids.iter() {
                         lesson_cache.remove(lesson_id);
                         lesson_trials_cache.remove(lesson_id);
@@ -178,34 +218,27 @@ impl UnitScorer {
     pub(super) fn invalidate_cached_scores_with_prefix(&self, prefix: &str) {
         // Remove the unit from the exercise, lesson, and course caches. This is safe to do even
         // though the unit is at most in one cache because the caches are disjoint.
-        self.exercise_cache
-            .borrow_mut()
-            .retain(|unit_id, _| !unit_id.starts_with(prefix));
-        self.lesson_cache
-            .borrow_mut()
-            .retain(|unit_id, _| !unit_id.starts_with(prefix));
-        self.course_cache
-            .borrow_mut()
-            .retain(|unit_id, _| !unit_id.starts_with(prefix));
-        self.lesson_trials_cache
-            .borrow_mut()
-            .retain(|unit_id, _| !unit_id.starts_with(prefix));
-        self.course_trials_cache
-            .borrow_mut()
-            .retain(|unit_id, _| !unit_id.starts_with(prefix));
+        let mut exercise_cache = self.exercise_cache.borrow_mut();
+        let mut lesson_cache = self.lesson_cache.borrow_mut();
+        let mut course_cache = self.course_cache.borrow_mut();
+        let mut lesson_trials_cache = self.lesson_trials_cache.borrow_mut();
+        let mut course_trials_cache = self.course_trials_cache.borrow_mut();
+        self.start_generation();
+        exercise_cache.retain(|unit_id, _| !unit_id.starts_with(prefix));
+        lesson_cache.retain(|unit_id, _| !unit_id.starts_with(prefix));
+        course_cache.retain(|unit_id, _| !unit_id.starts_with(prefix));
+        lesson_trials_cache.retain(|unit_id, _| !unit_id.starts_with(prefix));
+        course_trials_cache.retain(|unit_id, _| !unit_id.starts_with(prefix));
     }
 
-    /// Returns the score for the given exercise.
-    fn get_exercise_score(&self, exercise_id: Ustr) -> Result<f32> {
+    /// Returns the cached score for the given exercise, computing it if needed.
+    fn get_cached_score(&self, exercise_id: Ustr) -> Result<CachedScore> {
         // Return the cached score if it exists.
-        let cached_score = self
-            .exercise_cache
-            .borrow()
-            .get(&exercise_id)
-            .map(|c| c.score);
+        let cached_score = self.exercise_cache.borrow().get(&exercise_id).cloned();
         if let Some(score) = cached_score {
             return Ok(score);
         }
+        let generation = self.current_generation();
 
         // Retrieve the exercise's type and previous trials and compute its score.
         let exercise_type = self
@@ -220,14 +253,12 @@ impl UnitScorer {
             .data
             .practice_stats
             .read()
-            .get_scores(exercise_id, self.options.num_trials)
-            .unwrap_or_default();
+            .get_scores(exercise_id, self.options.num_trials)?;
         let deltas = self
             .data
             .practice_deltas
             .read()
-            .get_deltas(exercise_id, self.options.num_trials)
-            .unwrap_or_default();
+            .get_deltas(exercise_id, self.options.num_trials)?;
         let score = self
             .exercise_scorer
             .score(exercise_type, &scores, &deltas, self.now())?;
@@ -236,13 +267,9 @@ impl UnitScorer {
         let graph = self.data.unit_graph.read();
         let rewards = self.data.practice_rewards.read();
         let lesson_id = graph.get_exercise_lesson(exercise_id).unwrap_or_default();
-        let lesson_rewards = rewards
-            .get_rewards(lesson_id, self.options.num_rewards)
-            .unwrap_or_default();
+        let lesson_rewards = rewards.get_rewards(lesson_id, self.options.num_rewards)?;
         let course_id = graph.get_lesson_course(lesson_id).unwrap_or_default();
-        let course_rewards = rewards
-            .get_rewards(course_id, self.options.num_rewards)
-            .unwrap_or_default();
+        let course_rewards = rewards.get_rewards(course_id, self.options.num_rewards)?;
         let reward = self
             .reward_scorer
             .score_rewards(&course_rewards, &lesson_rewards)
@@ -254,87 +281,40 @@ impl UnitScorer {
         } else {
             score.value
         };
-        self.exercise_cache.borrow_mut().insert(
+        let cached_score = CachedScore {
+            score: final_score,
+            urgency: score.urgency,
+            velocity: score.velocity,
+            num_trials: scores.len(),
+        };
+        self.exercise_cache.store(
             exercise_id,
-            CachedScore {
-                score: final_score,
-                urgency: score.urgency,
-                velocity: score.velocity,
-                num_trials: scores.len(),
-            },
+            cached_score.clone(),
+            &self.generation,
+            generation,
         );
-        Ok(final_score)
+        Ok(cached_score)
+    }
+
+    /// Returns the score for the given exercise.
+    fn get_exercise_score(&self, exercise_id: Ustr) -> Result<f32> {
+        Ok(self.get_cached_score(exercise_id)?.score)
     }
 
     /// Returns the urgency of scheduling the given exercise, as a value between 0.0 and 1.0.
     pub(super) fn get_exercise_urgency(&self, exercise_id: Ustr) -> Result<f32> {
-        // Return the cached value if it exists.
-        let cached_urgency = self
-            .exercise_cache
-            .borrow()
-            .get(&exercise_id)
-            .map(|c| c.urgency);
-        if let Some(urgency) = cached_urgency {
-            return Ok(urgency);
-        }
-
-        // Compute the exercise's score, which populates the cache. Then, retrieve the urgency from
-        // the cache.
-        self.get_exercise_score(exercise_id)?;
-        let cached_urgency = self
-            .exercise_cache
-            .borrow()
-            .get(&exercise_id)
-            .map(|s| s.urgency)
-            .unwrap_or_default();
-        Ok(cached_urgency)
+        Ok(self.get_cached_score(exercise_id)?.urgency)
     }
 
     /// Returns the velocity of learning for the given exercise.
     pub(super) fn get_exercise_velocity(&self, exercise_id: Ustr) -> Result<Option<f32>> {
-        // Return the cached value if it exists.
-        let cached_velocity = self
-            .exercise_cache
-            .borrow()
-            .get(&exercise_id)
-            .and_then(|c| c.velocity);
-        if let Some(velocity) = cached_velocity {
-            return Ok(Some(velocity));
-        }
-
-        // Compute the exercise's score, which populates the cache. Then, retrieve the velocity of
-        // learning from the cache.
-        self.get_exercise_score(exercise_id)?;
-        let cached_velocity = self
-            .exercise_cache
-            .borrow()
-            .get(&exercise_id)
-            .and_then(|s| s.velocity);
-        Ok(cached_velocity)
+        Ok(self.get_cached_score(exercise_id)?.velocity)
     }
 
     /// Returns the number of trials that were considered when computing the score for the given
     /// exercise.
     pub(super) fn get_exercise_num_trials(&self, exercise_id: Ustr) -> Result<Option<usize>> {
-        // Return the cached value if it exists.
-        let cached_num_trials = self
-            .exercise_cache
-            .borrow()
-            .get(&exercise_id)
-            .map(|c| c.num_trials);
-        if let Some(num_trials) = cached_num_trials {
-            return Ok(Some(num_trials));
-        }
-
-        // Compute the exercise's score, which populates the cache. Then, retrieve the number of
-        // trials from the cache.
-        self.get_exercise_score(exercise_id)?;
-        let cached_num_trials = self
-            .exercise_cache
-            .borrow()
-            .get(&exercise_id)
-            .map(|s| s.num_trials);
-        Ok(cached_num_trials)
+        Ok(Some(self.get_cached_score(exercise_id)?.num_trials))
     }
 
     /// Returns whether all the exercises in the unit have valid scores.
@@ -352,7 +332,7 @@ impl UnitScorer {
             .collect();
         scores
             .into_iter()
-            .all(|score| score.is_ok() && score.unwrap() > 0.0)
+            .all(|score| self.score_or_default(score) > 0.0)
     }
 
     /// Returns whether the superseded unit can be considered as superseded by the superseding
@@ -371,7 +351,7 @@ impl UnitScorer {
         // All the superseding units must have a score equal or greater than the superseding score.
         let scores = superseding_ids
             .iter()
-            .filter_map(|id| self.get_unit_score(*id).unwrap_or_default())
+            .filter_map(|id| self.score_or_default(self.get_unit_score(*id)))
             .collect::<Vec<_>>();
         scores
             .iter()
@@ -414,12 +394,14 @@ impl UnitScorer {
         if let Some(score) = cached_score {
             return Ok(score);
         }
+        let generation = self.current_generation();
 
         // Check if the unit is blacklisted. A blacklisted unit has no score.
         let blacklist = self.data.blacklist.read();
         let blacklisted = blacklist.blacklisted(lesson_id);
         if blacklisted.unwrap_or(false) {
-            self.lesson_cache.borrow_mut().insert(lesson_id, None);
+            self.lesson_cache
+                .store(lesson_id, None, &self.generation, generation);
             return Ok(None);
         }
 
@@ -428,7 +410,8 @@ impl UnitScorer {
         if let Some(superseding_ids) = superseding_ids
             && self.is_superseded(lesson_id, &superseding_ids)
         {
-            self.lesson_cache.borrow_mut().insert(lesson_id, None);
+            self.lesson_cache
+                .store(lesson_id, None, &self.generation, generation);
             return Ok(None);
         }
 
@@ -467,7 +450,8 @@ impl UnitScorer {
 
         // Update the cache with a valid score.
         if let Ok(score) = score {
-            self.lesson_cache.borrow_mut().insert(lesson_id, score);
+            self.lesson_cache
+                .store(lesson_id, score, &self.generation, generation);
         }
         score
     }
@@ -479,11 +463,13 @@ impl UnitScorer {
         if let Some(score) = cached_score {
             return Ok(score);
         }
+        let generation = self.current_generation();
 
         // Check if the unit is blacklisted. A blacklisted course has no valid score.
         let blacklisted = self.data.blacklist.read().blacklisted(course_id);
         if blacklisted.unwrap_or(false) {
-            self.course_cache.borrow_mut().insert(course_id, None);
+            self.course_cache
+                .store(course_id, None, &self.generation, generation);
             return Ok(None);
         }
 
@@ -492,7 +478,8 @@ impl UnitScorer {
         if let Some(superseding_ids) = superseding_ids
             && self.is_superseded(course_id, &superseding_ids)
         {
-            self.course_cache.borrow_mut().insert(course_id, None);
+            self.course_cache
+                .store(course_id, None, &self.generation, generation);
             return Ok(None);
         }
 
@@ -510,8 +497,8 @@ impl UnitScorer {
                     .copied()
                     .map(|lesson_id| self.get_lesson_score(lesson_id))
                     .filter(|score| {
-                        // Filter out any lesson whose score is not valid.
-                        if score.as_ref().unwrap_or(&None).is_none() {
+                        // Filter out any lesson whose score is not valid. Keep any errors.
+                        if matches!(score, Ok(None)) {
                             return false;
                         }
                         true
@@ -536,7 +523,8 @@ impl UnitScorer {
 
         // Update the cache with a valid score.
         if let Ok(score) = score {
-            self.course_cache.borrow_mut().insert(course_id, score);
+            self.course_cache
+                .store(course_id, score, &self.generation, generation);
         }
         score
     }
@@ -565,6 +553,7 @@ impl UnitScorer {
         if let Some(cached) = self.lesson_trials_cache.borrow().get(&lesson_id) {
             return *cached;
         }
+        let generation = self.current_generation();
 
         // Get all the exercises in the lesson and filter those that are blacklisted.
         let blacklist = self.data.blacklist.read();
@@ -584,7 +573,9 @@ impl UnitScorer {
         // Compute the average number of trials across all the exercises in the lesson.
         let valid_exercise_trials: Vec<usize> = exercise_ids
             .iter()
-            .filter_map(|exercise_id| self.get_exercise_num_trials(*exercise_id).unwrap_or(None))
+            .filter_map(|exercise_id| {
+                self.score_or_default(self.get_exercise_num_trials(*exercise_id))
+            })
             .collect();
         let result = if valid_exercise_trials.is_empty() {
             None
@@ -594,8 +585,7 @@ impl UnitScorer {
         };
 
         self.lesson_trials_cache
-            .borrow_mut()
-            .insert(lesson_id, result);
+            .store(lesson_id, result, &self.generation, generation);
         result
     }
 
@@ -605,6 +595,7 @@ impl UnitScorer {
         if let Some(cached) = self.course_trials_cache.borrow().get(&course_id) {
             return *cached;
         }
+        let generation = self.current_generation();
 
         // Get all the lessons in the course and filter those that are blacklisted or superseded.
         let blacklist = self.data.blacklist.read();
@@ -641,8 +632,7 @@ impl UnitScorer {
         };
 
         self.course_trials_cache
-            .borrow_mut()
-            .insert(course_id, result);
+            .store(course_id, result, &self.generation, generation);
         result
     }
 
-- 
2.43.0


From fee2033d74d1f5676c502635601e83a9047d92d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:31 +0000
Subject: [PATCH 07/32] fix: invalidate all the cached scores a change affects

Blacklist changes invalidated the scores before the change was made, direct edits of the stored
scores, deltas and rewards did not invalidate any, removals by prefix left the scores of the units
containing the affected ones, and no change invalidated the scores of superseded units.
---
 src/lib.rs                   |  60 ++++++++++++-----
 src/scheduler/unit_scorer.rs | 123 ++++++++++++++++++-----------------
 2 files changed, 108 insertions(+), 75 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4a02d77..16e4e53 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -370,20 +370,23 @@ impl Trane {
 impl Blacklist for Trane {
     fn add_to_blacklist(&mut self, unit_id: Ustr) -> Result<(), BlacklistError> {
         // Make sure to invalidate any cached scores for the given unit.
+        let result = self.blacklist.write().add_to_blacklist(unit_id);
         self.scheduler.invalidate_cached_score(unit_id);
-        self.blacklist.write().add_to_blacklist(unit_id)
+        result
     }
 
     fn remove_from_blacklist(&mut self, unit_id: Ustr) -> Result<(), BlacklistError> {
         // Make sure to invalidate any cached scores for the given unit.
+        let result = self.blacklist.write().remove_from_blacklist(unit_id);
         self.scheduler.invalidate_cached_score(unit_id);
-        self.blacklist.write().remove_from_blacklist(unit_id)
+        result
     }
 
     fn remove_prefix_from_blacklist(&mut self, prefix: &str) -> Result<(), BlacklistError> {
         // Make sure to invalidate any cached scores of units with the given prefix.
+        let result = self.blacklist.write().remove_prefix_from_blacklist(prefix);
         self.scheduler.invalidate_cached_scores_with_prefix(prefix);
-        self.blacklist.write().remove_prefix_from_blacklist(prefix)
+        result
     }
 
     fn blacklisted(&self, unit_id: Ustr) -> Result<bool, BlacklistError> {
@@ -508,17 +511,26 @@ impl PracticeRewards for Trane {
         &mut self,
         rewards: &[UnitReward],
     ) -> Result<Vec<Ustr>, PracticeRewardsError> {
-        self.practice_rewards.write().record_unit_rewards(rewards)
+        let result = self.practice_rewards.write().record_unit_rewards(rewards);
+        for reward in rewards {
+            self.scheduler.invalidate_cached_score(reward.unit_id);
+        }
+        result
     }
 
     fn trim_rewards(&mut self, num_rewards: u32) -> Result<(), PracticeRewardsError> {
-        self.practice_rewards.write().trim_rewards(num_rewards)
+        let result = self.practice_rewards.write().trim_rewards(num_rewards);
+        self.scheduler.invalidate_cached_scores_with_prefix("");
+        result
     }
 
     fn remove_rewards_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeRewardsError> {
-        self.practice_rewards
+        let result = self
+            .practice_rewards
             .write()
-            .remove_rewards_with_prefix(prefix)
+            .remove_rewards_with_prefix(prefix);
+        self.scheduler.invalidate_cached_scores_with_prefix(prefix);
+        result
     }
 }
 
@@ -538,17 +550,26 @@ impl PracticeDeltas for Trane {
         &mut self,
         deltas: &[ExerciseDelta],
     ) -> Result<(), PracticeDeltasError> {
-        self.practice_deltas.write().record_exercise_deltas(deltas)
+        let result = self.practice_deltas.write().record_exercise_deltas(deltas);
+        for delta in deltas {
+            self.scheduler.invalidate_cached_score(delta.exercise_id);
+        }
+        result
     }
 
     fn trim_deltas(&mut self, num_deltas: u32) -> Result<(), PracticeDeltasError> {
-        self.practice_deltas.write().trim_deltas(num_deltas)
+        let result = self.practice_deltas.write().trim_deltas(num_deltas);
+        self.scheduler.invalidate_cached_scores_with_prefix("");
+        result
     }
 
     fn remove_deltas_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeDeltasError> {
-        self.practice_deltas
+        let result = self
+            .practice_deltas
             .write()
-            .remove_deltas_with_prefix(prefix)
+            .remove_deltas_with_prefix(prefix);
+        self.scheduler.invalidate_cached_scores_with_prefix(prefix);
+        result
     }
 }
 
@@ -568,17 +589,26 @@ impl PracticeStats for Trane {
         &mut self,
         trials: &[ExerciseTrial],
     ) -> Result<(), PracticeStatsError> {
-        self.practice_stats.write().record_exercise_scores(trials)
+        let result = self.practice_stats.write().record_exercise_scores(trials);
+        for trial in trials {
+            self.scheduler.invalidate_cached_score(trial.exercise_id);
+        }
+        result
     }
 
     fn trim_scores(&mut self, num_scores: u32) -> Result<(), PracticeStatsError> {
-        self.practice_stats.write().trim_scores(num_scores)
+        let result = self.practice_stats.write().trim_scores(num_scores);
+        self.scheduler.invalidate_cached_scores_with_prefix("");
+        result
     }
 
     fn remove_scores_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeStatsError> {
-        self.practice_stats
+        let result = self
+            .practice_stats
             .write()
-            .remove_scores_with_prefix(prefix)
+            .remove_scores_with_prefix(prefix);
+        self.scheduler.invalidate_cached_scores_with_prefix(prefix);
+        result
     }
 }
 #[cfg_attr(coverage, coverage(off))]
diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 7b88f4e..374ab5d 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -14,6 +14,7 @@ use ustr::{Ustr, UstrMap, UstrSet};
 use crate::{
     data::{ExerciseType, SchedulerOptions, UnitType},
     exercise_scorer::{ExerciseScorer, PowerLawScorer},
+    graph::UnitGraph,
     reward_scorer::{RewardScorer, WeightedRewardScorer},
     scheduler::SchedulerData,
 };
@@ -54,6 +55,15 @@ impl<T> UnitCache<T> {
         self.0.write()
     }
 
+    /// Returns the IDs of the units in the cache that start with the given prefix.
+    fn ids_with_prefix(&self, prefix: &str) -> Vec<Ustr> {
+        self.borrow()
+            .keys()
+            .copied()
+            .filter(|unit_id| unit_id.starts_with(prefix))
+            .collect()
+    }
+
     /// Stores a value, unless the generation changed since its computation started. In that case,
     /// the value might be based on data that is no longer current.
     fn store(&self, unit_id: Ustr, value: T, generation: &AtomicU64, started: u64) {
@@ -150,6 +160,21 @@ impl UnitScorer {
         })
     }
 
+    /// Returns the given units, the units that contain them, and all the units superseded by any of
+    /// them, whose scores depend on whether the units superseding them have been mastered.
+    fn affected_units(graph: &dyn UnitGraph, mut units: Vec<Ustr>) -> UstrSet {
+        let mut affected = UstrSet::default();
+        while let Some(unit_id) = units.pop() {
+            if !affected.insert(unit_id) {
+                continue;
+            }
+            units.extend(graph.get_exercise_lesson(unit_id));
+            units.extend(graph.get_lesson_course(unit_id));
+            units.extend(graph.get_supersedes(unit_id).unwrap_or_default().iter());
+        }
+        affected
+    }
+
     /// Removes the cached score for the given unit and all units affected by an update to its
     /// score.
     pub(super) fn invalidate_cached_score(&self, unit_id: Ustr) {
@@ -163,72 +188,50 @@ impl UnitScorer {
         let mut course_trials_cache = self.course_trials_cache.borrow_mut();
         self.start_generation();
 
-        // Remove the unit itself from all caches.
-        exercise_cache.remove(&unit_id);
-        lesson_cache.remove(&unit_id);
-        course_cache.remove(&unit_id);
-        lesson_trials_cache.remove(&unit_id);
-        course_trials_cache.remove(&unit_id);
-
-        // Invalidate the caches depending on the type of the unit.
-        match graph.get_unit_type(unit_id) {
-            // If the unit is an exercise, invalidate the cached score of its lesson and course. If
-            // the unit is a lesson, invalidate the cached score of its course.
-            Some(UnitType::Exercise) => {
-                if let Some(lesson_id) = graph.get_exercise_lesson(unit_id) {
-                    lesson_cache.remove(&lesson_id);
-                    lesson_trials_cache.remove(&lesson_id);
-                    if let Some(course_id) = graph.get_lesson_course(lesson_id) {
-                        course_cache.remove(&course_id);
-                        course_trials_cache.remove(&course_id);
-                    }
-                }
-            }
-            // For lessons, invalidate the scores of all exercises in the lesson.
-            Some(UnitType::Lesson) => {
-                if let Some(course_id) = graph.get_lesson_course(unit_id) {
-                    course_cache.remove(&course_id);
-                    course_trials_cache.remove(&course_id);
-                }
-                if let Some(exercise_ids) = graph.get_lesson_exercises(unit_id) {
-                    for exercise_id in exercise_ids.iter() {
-                        exercise_cache.remove(exercise_id);
-                    }
-                }
-            }
-            // For courses, invalidate the scores of all lessons and exercises in the course.
-            Some(UnitType::Course) => {
-                if let Some(lesson_ids) = graph.get_course_lessons(unit_id) {
-                    for lesson_id in lesson_ids.iter() {
-                        lesson_cache.remove(lesson_id);
-                        lesson_trials_cache.remove(lesson_id);
-                        if let Some(exercise_ids) = graph.get_lesson_exercises(*lesson_id) {
-                            for exercise_id in exercise_ids.iter() {
-                                exercise_cache.remove(exercise_id);
-                            }
-                        }
-                    }
+        // Invalidate the unit itself. For lessons, also invalidate the scores of all exercises in the
+        // lesson. For courses, also invalidate the scores of all lessons and exercises in the course.
+        let mut units = vec![unit_id];
+        if let Some(lesson_ids) = graph.get_course_lessons(unit_id) {
+            units.extend(lesson_ids.iter());
+        }
+        for unit_id in &units {
+            exercise_cache.remove(unit_id);
+            if let Some(exercise_ids) = graph.get_lesson_exercises(*unit_id) {
+                for exercise_id in exercise_ids.iter() {
+                    exercise_cache.remove(exercise_id);
                 }
             }
-            None => {}
+        }
+
+        // Invalidate all the lessons and courses whose values are derived from those units.
+        for unit_id in Self::affected_units(&*graph, units) {
+            lesson_cache.remove(&unit_id);
+            course_cache.remove(&unit_id);
+            lesson_trials_cache.remove(&unit_id);
+            course_trials_cache.remove(&unit_id);
         }
     }
 
-    /// Removes the cached score for any unit with the given prefix.
+    /// Removes the cached score for any unit with the given prefix and all units affected by an
+    /// update to their scores.
     pub(super) fn invalidate_cached_scores_with_prefix(&self, prefix: &str) {
-        // Remove the unit from the exercise, lesson, and course caches. This is safe to do even
-        // though the unit is at most in one cache because the caches are disjoint.
-        let mut exercise_cache = self.exercise_cache.borrow_mut();
-        let mut lesson_cache = self.lesson_cache.borrow_mut();
-        let mut course_cache = self.course_cache.borrow_mut();
-        let mut lesson_trials_cache = self.lesson_trials_cache.borrow_mut();
-        let mut course_trials_cache = self.course_trials_cache.borrow_mut();
-        self.start_generation();
-        exercise_cache.retain(|unit_id, _| !unit_id.starts_with(prefix));
-        lesson_cache.retain(|unit_id, _| !unit_id.starts_with(prefix));
-        course_cache.retain(|unit_id, _| !unit_id.starts_with(prefix));
-        lesson_trials_cache.retain(|unit_id, _| !unit_id.starts_with(prefix));
-        course_trials_cache.retain(|unit_id, _| !unit_id.starts_with(prefix));
+        let mut unit_ids = self
+            .data
+            .course_library
+            .read()
+            .get_matching_prefix(prefix, None);
+        for cached_ids in [
+            self.exercise_cache.ids_with_prefix(prefix),
+            self.lesson_cache.ids_with_prefix(prefix),
+            self.course_cache.ids_with_prefix(prefix),
+            self.lesson_trials_cache.ids_with_prefix(prefix),
+            self.course_trials_cache.ids_with_prefix(prefix),
+        ] {
+            unit_ids.extend(cached_ids);
+        }
+        for unit_id in unit_ids {
+            self.invalidate_cached_score(unit_id);
+        }
     }
 
     /// Returns the cached score for the given exercise, computing it if needed.
-- 
2.43.0


From 3ba8ae9464c2b4144ba0dab296b159713269e1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:33 +0000
Subject: [PATCH 08/32] fix: invalidate the cached score when a submission
 fails halfway

The delta is stored before the score, so the cached score was out of date when storing the score
failed.
---
 src/scheduler.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 0890e73..3fea8cd 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -1126,17 +1126,19 @@ impl ExerciseScheduler for DepthFirstScheduler {
         }
 
         // Write the score to the practice stats database, invalidate the cache, and update the
-        // relearning pile and the success rate.
-        self.data
+        // relearning pile and the success rate. The cache is invalidated even if the score cannot be
+        // written because the delta was stored already.
+        let result = self
+            .data
             .practice_stats
             .write()
             .record_exercise_scores(&[ExerciseTrial {
                 exercise_id,
                 score: score.float_score(),
                 timestamp,
-            }])
-            .map_err(|e| ExerciseSchedulerError::ScoreExercise(e.into()))?;
+            }]);
         self.unit_scorer.invalidate_cached_score(exercise_id);
+        result.map_err(|e| ExerciseSchedulerError::ScoreExercise(e.into()))?;
         self.relearn_pile.update(exercise_id, &score);
         self.data.update_success_rate(&score);
 
-- 
2.43.0


From 31ffbefeeaf4c5e7440f354231b5cf0ad14eae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:06 +0000
Subject: [PATCH 09/32] fix: do not hold the frequency map while collecting
 review list candidates

The lesson search locks the map again, which deadlocks when another thread waits for writing to it
in between.
---
 src/scheduler.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 3fea8cd..d832cf1 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -923,7 +923,6 @@ impl DepthFirstScheduler {
         // Retrieve candidates from each entry in the review list.
         let mut candidates = vec![];
         let review_list = self.data.review_list.read().get_review_list_entries()?;
-        let frequency_map = self.data.frequency_map.read();
         for unit_id in review_list {
             match self.data.get_unit_type_strict(unit_id)? {
                 UnitType::Course => {
@@ -952,7 +951,13 @@ impl DepthFirstScheduler {
                             .unwrap_or_default(),
                         urgency: self.unit_scorer.get_exercise_urgency(unit_id)?,
                         velocity: self.unit_scorer.get_exercise_velocity(unit_id)?,
-                        frequency: *frequency_map.get(&unit_id).unwrap_or(&0),
+                        frequency: self
+                            .data
+                            .frequency_map
+                            .read()
+                            .get(&unit_id)
+                            .copied()
+                            .unwrap_or(0),
                         dead_end: false,
                         encompasses_weight: 0.0,
                         encompassed_weight: 0.0,
-- 
2.43.0


From 991166b52b4ac2d97bbb7c3f9c2ddcb6430bfe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:39 +0000
Subject: [PATCH 10/32] fix: drop unknown exercises from the relearn pile

Scoring an exercise that is not in the library added it to the pile, and every later batch failed
because its manifest could not be found.
---
 src/scheduler/relearn_pile.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/scheduler/relearn_pile.rs b/src/scheduler/relearn_pile.rs
index ea95227..777b499 100644
--- a/src/scheduler/relearn_pile.rs
+++ b/src/scheduler/relearn_pile.rs
@@ -58,11 +58,12 @@ impl RelearnPile {
             .collect()
     }
 
-    /// Cleans up blacklisted exercises from the pile before selecting exercises.
+    /// Cleans up blacklisted and unknown exercises from the pile before selecting exercises.
     pub fn select_exercises(&self, data: &SchedulerData) -> Vec<Candidate> {
-        self.pile
-            .write()
-            .retain(|id| !data.inside_blacklisted(*id).unwrap_or(false));
+        self.pile.write().retain(|id| {
+            data.get_exercise_manifest(*id).is_ok()
+                && !data.inside_blacklisted(*id).unwrap_or(false)
+        });
         self.select_exercises_helper()
     }
 }
-- 
2.43.0


From ac7add7c5d205d95e0646dbf304b251062b3de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:39 +0000
Subject: [PATCH 11/32] fix: skip unknown units in the review list

One entry for a unit that is not in the library made every batch for the review list fail.
---
 src/scheduler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index d832cf1..a45aa3a 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -924,7 +924,11 @@ impl DepthFirstScheduler {
         let mut candidates = vec![];
         let review_list = self.data.review_list.read().get_review_list_entries()?;
         for unit_id in review_list {
-            match self.data.get_unit_type_strict(unit_id)? {
+            // Skip units that are not in the library.
+            let Some(unit_type) = self.data.get_unit_type(unit_id) else {
+                continue;
+            };
+            match unit_type {
                 UnitType::Course => {
                     // If the unit is a course, use the course scheduler to retrieve candidates.
                     let course_ids = vec![unit_id];
-- 
2.43.0


From 50ed76444ebcbd0a5c61d20e04eea361ee44c0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:39 +0000
Subject: [PATCH 12/32] fix: do not present blacklisted exercises in the review
 list

---
 src/scheduler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index a45aa3a..af607b0 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -939,6 +939,11 @@ impl DepthFirstScheduler {
                     candidates.extend(self.get_candidates_from_lesson(unit_id)?);
                 }
                 UnitType::Exercise => {
+                    // Skip exercises that are blacklisted or inside a blacklisted unit.
+                    if self.data.inside_blacklisted(unit_id)? {
+                        continue;
+                    }
+
                     // Retrieve the exercise's lesson and course IDs.
                     let lesson_id = self.data.get_lesson_id(unit_id).unwrap_or_default();
                     let course_id = self.data.get_course_id(lesson_id).unwrap_or_default();
-- 
2.43.0


From a57b58cfca591f337cf2b66fc500be971d1d90fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:39 +0000
Subject: [PATCH 13/32] fix: do not repeat an exercise in a batch

---
 src/scheduler.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index af607b0..72338b7 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -1065,10 +1065,15 @@ impl ExerciseScheduler for DepthFirstScheduler {
         filter: Option<ExerciseFilter>,
     ) -> Result<Vec<ExerciseManifest>, ExerciseSchedulerError> {
         // Retrieve an initial batch of candidates based on the type of the filter.
-        let initial_candidates = self
+        let mut initial_candidates = self
             .get_initial_candidates(filter)
             .map_err(ExerciseSchedulerError::GetExerciseBatch)?;
 
+        // The same exercise can be reached more than once, for example if both it and its lesson are
+        // in the review list.
+        let mut seen = UstrSet::default();
+        initial_candidates.retain(|candidate| seen.insert(candidate.exercise_id));
+
         // Knock out highly encompassed exercises from the initial batch to ensure that they are not
         // overrepresented in the final batch.
         let knocked_out = self.review_knocker.knock_out_reviews(initial_candidates);
-- 
2.43.0


From df5acf6d150a2d9217a6c1995dc530264cd74bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:21 +0000
Subject: [PATCH 14/32] fix: fail to open a library when a directory cannot be
 read

Errors while walking the directories of the library, its courses, and its lessons were ignored, so
the library opened without the courses, lessons, or exercises in them.
---
 src/course_library.rs                       | 42 ++++++++++-----------
 src/data/course_generator/knowledge_base.rs | 30 ++++++++-------
 src/data/course_generator/literacy.rs       | 32 ++++++++--------
 src/utils.rs                                | 11 ++++++
 4 files changed, 65 insertions(+), 50 deletions(-)

diff --git a/src/course_library.rs b/src/course_library.rs
index 323b676..c7c23a1 100644
--- a/src/course_library.rs
+++ b/src/course_library.rs
@@ -248,12 +248,9 @@ impl LocalCourseLibrary {
         // lesson's root. Each exercise in the lesson must be contained in a directory that is a
         // direct descendant of the lesson's root. Therefore, all the exercise manifests will be
         // found at a depth of two.
-        for entry in WalkDir::new(lesson_root)
-            .min_depth(2)
-            .max_depth(2)
-            .into_iter()
-            .flatten()
-        {
+        for entry in WalkDir::new(lesson_root).min_depth(2).max_depth(2) {
+            let entry = entry?;
+
             // Ignore any entries that are not files named `exercise_manifest.json`.
             if entry.path().is_dir() {
                 continue; // grcov-excl-line
@@ -314,12 +311,9 @@ impl LocalCourseLibrary {
         // course's root. Each lesson in the course must be contained in a directory that is a
         // direct descendant of its root. Therefore, all the lesson manifests will be found at a
         // depth of two.
-        for entry in WalkDir::new(course_root)
-            .min_depth(2)
-            .max_depth(2)
-            .into_iter()
-            .flatten()
-        {
+        for entry in WalkDir::new(course_root).min_depth(2).max_depth(2) {
+            let entry = entry?;
+
             // Ignore any entries which are not directories.
             if entry.path().is_dir() {
                 continue;
@@ -445,16 +439,25 @@ impl LocalCourseLibrary {
                 absolute_path
             })
             .collect::<Vec<_>>();
+        let is_ignored = |path: &Path| {
+            ignored_paths
+                .iter()
+                .any(|ignored_path| path.starts_with(ignored_path))
+        };
 
         // Start a search for courses from the library root. Courses can be located at any level
         // within the library root. However, the course manifests, assets, and its lessons and
         // exercises follow a fixed structure.
         let mut courses = Vec::new();
-        for entry in WalkDir::new(library_root)
-            .min_depth(2)
-            .into_iter()
-            .flatten()
-        {
+        for entry in WalkDir::new(library_root).min_depth(2) {
+            // Fail if a directory cannot be read, unless it is ignored. Otherwise, the courses in it
+            // would be silently left out.
+            let entry = match entry {
+                Ok(entry) => entry,
+                Err(e) if e.path().is_some_and(|path| is_ignored(path)) => continue,
+                Err(e) => return Err(e.into()),
+            };
+
             // Ignore any entries which are not directories.
             if entry.path().is_dir() {
                 continue;
@@ -467,10 +470,7 @@ impl LocalCourseLibrary {
             }
 
             // Ignore any directory that matches the list of paths to ignore.
-            if ignored_paths
-                .iter()
-                .any(|ignored_path| entry.path().starts_with(ignored_path))
-            {
+            if is_ignored(entry.path()) {
                 continue;
             }
 
diff --git a/src/data/course_generator/knowledge_base.rs b/src/data/course_generator/knowledge_base.rs
index 3fcbc86..9e9c5e3 100644
--- a/src/data/course_generator/knowledge_base.rs
+++ b/src/data/course_generator/knowledge_base.rs
@@ -6,14 +6,17 @@ use serde::{Deserialize, Serialize, de::DeserializeOwned};
 use std::{
     collections::{BTreeMap, HashMap, HashSet},
     fs::{File, read_dir, read_to_string},
-    io::BufReader,
+    io::{self, BufReader},
     path::Path,
 };
 use ustr::{Ustr, UstrMap};
 
-use crate::data::{
-    BasicAsset, CourseManifest, ExerciseAsset, ExerciseManifest, ExerciseType, GenerateManifests,
-    GeneratedCourse, LessonManifest, UserPreferences,
+use crate::{
+    data::{
+        BasicAsset, CourseManifest, ExerciseAsset, ExerciseManifest, ExerciseType,
+        GenerateManifests, GeneratedCourse, LessonManifest, UserPreferences,
+    },
+    utils::try_is_dir,
 };
 
 /// The suffix used to recognize a directory as a knowledge base lesson.
@@ -487,7 +490,8 @@ impl KnowledgeBaseLesson {
         let mut lesson_files = Vec::new();
         let mut exercise_files = HashMap::new();
         let kb_files = read_dir(lesson_root)?
-            .flatten()
+            .collect::<io::Result<Vec<_>>>()?
+            .into_iter()
             .flat_map(|entry| {
                 KnowledgeBaseFile::try_from(entry.file_name().to_str().unwrap_or_default())
             })
@@ -644,17 +648,15 @@ impl GenerateManifests for KnowledgeBaseConfig {
         // Create the lessons by iterating through all the directories in the course root,
         // processing only those whose name fits the pattern `<SHORT_LESSON_ID>.lesson`.
         let mut lessons = UstrMap::default();
-        let valid_entries = read_dir(course_root)?
-            .flatten()
-            .filter(|entry| {
-                let path = entry.path();
-                path.is_dir()
-            })
-            .collect::<Vec<_>>();
-        for entry in valid_entries {
+        for entry in read_dir(course_root)? {
+            // Ignore any entries which are not directories.
+            let path = entry?.path();
+            if !try_is_dir(&path)? {
+                continue;
+            }
+
             // Check if the directory name is in the format `<SHORT_LESSON_ID>.lesson`. If so, read
             // the knowledge base lesson and its exercises.
-            let path = entry.path();
             let dir_name = path.file_name().unwrap_or_default().to_str().unwrap();
             if let Some(short_id) = dir_name.strip_suffix(LESSON_SUFFIX) {
                 lessons.insert(
diff --git a/src/data/course_generator/literacy.rs b/src/data/course_generator/literacy.rs
index bce10c6..5638d63 100644
--- a/src/data/course_generator/literacy.rs
+++ b/src/data/course_generator/literacy.rs
@@ -11,15 +11,18 @@ use serde::{Deserialize, Serialize, de::DeserializeOwned};
 use std::{
     collections::BTreeMap,
     fs::{File, read_dir},
-    io::{BufReader, Read},
+    io::{self, BufReader, Read},
     path::Path,
 };
 use strum::Display;
 use ustr::{Ustr, UstrMap, UstrSet};
 
-use crate::data::{
-    BasicAsset, CourseGenerator, CourseManifest, ExerciseAsset, ExerciseManifest, ExerciseType,
-    GenerateManifests, GeneratedCourse, LessonManifest, UserPreferences,
+use crate::{
+    data::{
+        BasicAsset, CourseGenerator, CourseManifest, ExerciseAsset, ExerciseManifest, ExerciseType,
+        GenerateManifests, GeneratedCourse, LessonManifest, UserPreferences,
+    },
+    utils::try_is_dir,
 };
 
 /// The metadata key indicating this is a literacy course. Its value should be set to "true".
@@ -449,7 +452,8 @@ impl LiteracyLesson {
     fn open_lesson(lesson_root: &Path, short_lesson_id: Ustr) -> Result<Self> {
         // Iterate through the directory to find all the matching files in the lesson directory.
         let lesson_files = read_dir(lesson_root)?
-            .flatten()
+            .collect::<io::Result<Vec<_>>>()?
+            .into_iter()
             .flat_map(|entry| {
                 LiteracyFile::try_from(entry.file_name().to_str().unwrap_or_default())
             })
@@ -692,7 +696,7 @@ impl LiteracyConfig {
     // Opens the course instructions if they exist.
     fn open_course_instructions(course_root: &Path) -> Result<Option<BasicAsset>> {
         let path = course_root.join(COURSE_INSTRUCTIONS_FILE);
-        if path.exists() && path.is_file() {
+        if path.try_exists()? && path.metadata()?.is_file() {
             Ok(Some(BasicAsset::InlinedAsset {
                 content: LiteracyFile::open_md(&path)?,
             }))
@@ -712,17 +716,15 @@ impl GenerateManifests for LiteracyConfig {
         // Create the lessons by iterating through all the directories in the course root,
         // processing only those whose name fits the pattern `<SHORT_LESSON_ID>.lesson`.
         let mut lessons = UstrMap::default();
-        let valid_entries = read_dir(course_root)?
-            .flatten()
-            .filter(|entry| {
-                let path = entry.path();
-                path.is_dir()
-            })
-            .collect::<Vec<_>>();
-        for entry in valid_entries {
+        for entry in read_dir(course_root)? {
+            // Ignore any entries which are not directories.
+            let path = entry?.path();
+            if !try_is_dir(&path)? {
+                continue;
+            }
+
             // Check if the directory name is in the format `<SHORT_LESSON_ID>.lesson`. If so, read
             // the knowledge base lesson and its exercises.
-            let path = entry.path();
             let dir_name = path.file_name().unwrap_or_default().to_str().unwrap();
             if let Some(short_id) = dir_name.strip_suffix(LESSON_SUFFIX)
                 && !short_id.is_empty()
diff --git a/src/utils.rs b/src/utils.rs
index cfec402..8cc87f0 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,6 +1,17 @@
 //! Contains common utilities used in multiple modules.
 
 use rusqlite::Connection;
+use std::{fs, io, path::Path};
+
+/// Returns whether the path points to a directory. Unlike [`Path::is_dir`], an error is returned if
+/// this cannot be determined.
+pub fn try_is_dir(path: &Path) -> io::Result<bool> {
+    match fs::metadata(path) {
+        Ok(metadata) => Ok(metadata.is_dir()),
+        Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(false),
+        Err(e) => Err(e),
+    }
+}
 
 /// Returns the weighted average of the scores.
 #[must_use]
-- 
2.43.0


From b71d2e1349f842e5c282f9d9994c057fdc1903de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:05 +0000
Subject: [PATCH 15/32] fix: replace the user preferences in one step

The file was truncated before it was written, so a failed or interrupted write left preferences that
can no longer be read, and the library no longer opened. The file was also overwritten with the
defaults if its existence could not be determined.
---
 src/lib.rs                 | 18 ++++++------------
 src/preferences_manager.rs |  4 ++--
 src/utils.rs               | 25 ++++++++++++++++++++++++-
 3 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 16e4e53..28670e7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -74,12 +74,7 @@ pub mod utils;
 use anyhow::{Context, Result, bail, ensure};
 use error::*;
 use parking_lot::RwLock;
-use std::{
-    fs::{File, create_dir},
-    io::Write,
-    path::Path,
-    sync::Arc,
-};
+use std::{fs::create_dir, path::Path, sync::Arc};
 use ustr::{Ustr, UstrMap, UstrSet};
 
 use crate::{
@@ -100,6 +95,7 @@ use crate::{
     review_list::{LocalReviewList, ReviewList},
     scheduler::{DepthFirstScheduler, ExerciseScheduler, data::SchedulerData},
     study_session_manager::{LocalStudySessionManager, StudySessionManager},
+    utils::replace_file,
 };
 
 /// The path to the folder inside each course library containing the user data.
@@ -202,7 +198,7 @@ impl Trane {
 
         // Create the config folder inside the library root if it does not exist already.
         let trane_path = library_root.join(TRANE_CONFIG_DIR_PATH);
-        if !trane_path.exists() {
+        if !trane_path.try_exists()? {
             create_dir(trane_path.clone()).context("failed to create config directory")?;
         } else if !trane_path.is_dir() {
             bail!("config path .trane inside library must be a directory");
@@ -223,13 +219,11 @@ impl Trane {
 
         // Create the user preferences file if it does not exist already.
         let user_prefs_path = trane_path.join(USER_PREFERENCES_PATH);
-        if !user_prefs_path.exists() {
-            let mut file = File::create(user_prefs_path.clone())
-                .context("failed to create user_preferences.json file")?;
+        if !user_prefs_path.try_exists()? {
             let default_prefs = UserPreferences::default();
             let prefs_json = serde_json::to_string_pretty(&default_prefs)? + "\n";
-            file.write_all(prefs_json.as_bytes())
-                .context("failed to write to user_preferences.json file")?;
+            replace_file(&user_prefs_path, &prefs_json)
+                .context("failed to create user_preferences.json file")?;
         } else if !user_prefs_path.is_file() {
             bail!("user preferences file must be a regular file");
         }
diff --git a/src/preferences_manager.rs b/src/preferences_manager.rs
index d1ad431..575acc4 100644
--- a/src/preferences_manager.rs
+++ b/src/preferences_manager.rs
@@ -3,7 +3,7 @@
 use anyhow::{Context, Result};
 use std::{fs, path::PathBuf};
 
-use crate::{PreferencesManagerError, data::UserPreferences};
+use crate::{PreferencesManagerError, data::UserPreferences, utils::replace_file};
 
 /// A trait for managing user preferences.
 pub trait PreferencesManager {
@@ -37,7 +37,7 @@ impl LocalPreferencesManager {
     fn set_user_preferences_helper(&self, preferences: &UserPreferences) -> Result<()> {
         let pretty_json =
             serde_json::to_string_pretty(preferences).context("invalid user preferences")?;
-        fs::write(&self.path, pretty_json).context("failed to write user preferences")
+        replace_file(&self.path, &pretty_json).context("failed to write user preferences")
     }
 }
 
diff --git a/src/utils.rs b/src/utils.rs
index 8cc87f0..95c6eff 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,7 +1,11 @@
 //! Contains common utilities used in multiple modules.
 
 use rusqlite::Connection;
-use std::{fs, io, path::Path};
+use std::{
+    fs::{self, File},
+    io::{self, Write},
+    path::Path,
+};
 
 /// Returns whether the path points to a directory. Unlike [`Path::is_dir`], an error is returned if
 /// this cannot be determined.
@@ -13,6 +17,25 @@ pub fn try_is_dir(path: &Path) -> io::Result<bool> {
     }
 }
 
+/// Replaces the contents of the file at the given path. The contents are first written to a temporary
+/// file in the same directory, so that the file has either its old or its new contents if the
+/// operation fails or is interrupted.
+pub fn replace_file(path: &Path, contents: &str) -> io::Result<()> {
+    // Replacing a file only requires permission to write to its directory. Keep respecting the
+    // permissions of the file itself.
+    match File::options().write(true).open(path) {
+        Err(e) if e.kind() != io::ErrorKind::NotFound => return Err(e),
+        _ => {}
+    }
+
+    let mut temp_path = path.as_os_str().to_os_string();
+    temp_path.push(".tmp");
+    let mut temp_file = File::create(&temp_path)?;
+    temp_file.write_all(contents.as_bytes())?;
+    temp_file.sync_all()?;
+    fs::rename(temp_path, path)
+}
+
 /// Returns the weighted average of the scores.
 #[must_use]
 pub fn weighted_average(values: &[f32], weights: &[f32]) -> f32 {
-- 
2.43.0


From 87aaeee46182493b6192185caea3fc6aeced5e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:17 +0000
Subject: [PATCH 16/32] fix: fail to build a course whose manifests mention
 missing files

The result of verifying the paths in the manifests was ignored, as were errors while looking for
existing files.
---
 src/course_builder.rs                        | 28 +++++++++++---------
 src/course_builder/knowledge_base_builder.rs |  2 +-
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/course_builder.rs b/src/course_builder.rs
index 2c1cd94..dcb7f33 100644
--- a/src/course_builder.rs
+++ b/src/course_builder.rs
@@ -9,7 +9,7 @@
 
 pub mod knowledge_base_builder;
 
-use anyhow::{Context, Result, ensure};
+use anyhow::{Result, ensure};
 use serde::{Deserialize, Serialize};
 use std::{
     fs::{File, create_dir_all},
@@ -45,7 +45,7 @@ impl AssetBuilder {
         create_dir_all(asset_directory)?;
         let asset_path = asset_directory.join(&self.file_name);
         ensure!(
-            !asset_path.exists(),
+            !asset_path.try_exists()?,
             "asset path {} already exists",
             asset_path.display()
         );
@@ -95,10 +95,11 @@ impl ExerciseBuilder {
         }
 
         // Verify that all paths mentioned in the manifest are valid.
-        manifest.verify_paths(exercise_directory).context(format!(
+        ensure!(
+            manifest.verify_paths(exercise_directory)?,
             "failed to verify files for exercise {}",
             manifest.id
-        ))?;
+        );
         Ok(())
     }
 }
@@ -151,9 +152,11 @@ impl LessonBuilder {
         }
 
         // Verify that all paths mentioned in the manifest are valid.
-        manifest
-            .verify_paths(lesson_directory)
-            .context(format!("failed to verify files for lesson {}", manifest.id))?;
+        ensure!(
+            manifest.verify_paths(lesson_directory)?,
+            "failed to verify files for lesson {}",
+            manifest.id
+        );
         Ok(())
     }
 }
@@ -201,12 +204,11 @@ impl CourseBuilder {
         }
 
         // Verify that all paths mentioned in the manifest are valid.
-        self.course_manifest
-            .verify_paths(&course_directory)
-            .context(format!(
-                "failed to verify files for course {}",
-                self.course_manifest.id
-            ))?;
+        ensure!(
+            self.course_manifest.verify_paths(&course_directory)?,
+            "failed to verify files for course {}",
+            self.course_manifest.id
+        );
         Ok(())
     }
 }
diff --git a/src/course_builder/knowledge_base_builder.rs b/src/course_builder/knowledge_base_builder.rs
index 27857ca..b873c6f 100644
--- a/src/course_builder/knowledge_base_builder.rs
+++ b/src/course_builder/knowledge_base_builder.rs
@@ -408,7 +408,7 @@ impl SimpleKnowledgeBaseCourse {
             ));
 
             // Remove the lesson directories if they already exist.
-            if lesson_directory.exists() {
+            if lesson_directory.try_exists()? {
                 fs::remove_dir_all(&lesson_directory).context(format!(
                     "failed to remove existing lesson directory at {}",
                     lesson_directory.display()
-- 
2.43.0


From 9c709e847acc37e2776e702ae96d5a0bce4e2970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 17/32] fix: compute the current part of long study sessions
 without overflowing

---
 src/data/filter.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/data/filter.rs b/src/data/filter.rs
index 89019c4..e4d2035 100644
--- a/src/data/filter.rs
+++ b/src/data/filter.rs
@@ -357,13 +357,12 @@ impl StudySessionData {
         if minutes_since_start < 0 {
             return self.definition.parts[0].clone();
         }
-        let minutes_since_start = minutes_since_start as u32;
 
         // Find the first part that has not been completed yet. If all parts have been completed,
         // return the last part.
-        let mut session_length = 0;
+        let mut session_length: i64 = 0;
         for part in &self.definition.parts {
-            session_length += part.duration();
+            session_length += i64::from(part.duration());
             if minutes_since_start < session_length {
                 return part.clone();
             }
-- 
2.43.0


From 1319e1ba164c2e36b0bb62a8e9a0186041a50150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:33 +0000
Subject: [PATCH 18/32] fix: do not reach a starting lesson before the
 dependencies of its course are satisfied

---
 src/scheduler.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 72338b7..d27bbed 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -282,6 +282,10 @@ impl DepthFirstScheduler {
         let starting_units = self.get_all_starting_units();
         let mut initial_stack: Vec<StackItem> = vec![];
         for course_id in starting_units {
+            if !self.satisfied_course_dependencies(course_id, metadata_filter) {
+                continue;
+            }
+
             // Set the depth to zero since all the starting units are at the same depth.
             let lesson_ids = self
                 .get_course_valid_starting_lessons(course_id, metadata_filter)
@@ -604,6 +608,27 @@ impl DepthFirstScheduler {
             .all(|dependency_id| self.satisfied_dependency(dependency_id, metadata_filter))
     }
 
+    /// Returns whether the dependencies of the lesson's course are satisfied if the unit is a
+    /// starting lesson. Starting lessons are effectively dependent on the course dependencies, so
+    /// those must be satisfied too when the lesson is not reached through its course.
+    fn satisfied_course_dependencies(
+        &self,
+        unit_id: Ustr,
+        metadata_filter: Option<&KeyValueFilter>,
+    ) -> bool {
+        let Some(course_id) = self.data.get_lesson_course(unit_id) else {
+            return true;
+        };
+        let is_starting_lesson = self
+            .data
+            .unit_graph
+            .read()
+            .get_starting_lessons(course_id)
+            .unwrap_or_default()
+            .contains(&unit_id);
+        !is_starting_lesson || self.all_satisfied_dependencies(course_id, metadata_filter)
+    }
+
     /// Returns the valid dependents which can be visited after the given unit. A valid dependent is
     /// a unit whose full dependencies are met.
     fn get_valid_dependents(
@@ -615,6 +640,7 @@ impl DepthFirstScheduler {
             .get_all_dependents(unit_id)
             .into_iter()
             .filter(|unit_id| self.all_satisfied_dependencies(*unit_id, metadata_filter))
+            .filter(|unit_id| self.satisfied_course_dependencies(*unit_id, metadata_filter))
             .collect()
     }
 
-- 
2.43.0


From cb502c8227dda30a1401724349f193f2046626f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:24 +0000
Subject: [PATCH 19/32] fix: compute the age of the last trial without
 overflowing

---
 src/reward_scorer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reward_scorer.rs b/src/reward_scorer.rs
index 8706220..9da6039 100644
--- a/src/reward_scorer.rs
+++ b/src/reward_scorer.rs
@@ -125,7 +125,8 @@ impl RewardScorer for WeightedRewardScorer {
         // that are not being performed well.
         let recent_trials = previous_trials.iter().take(3);
         let last_trial = previous_trials.first().unwrap();
-        let num_days = (Utc::now().timestamp() - last_trial.timestamp) as f32 / (86_400.0);
+        let num_days =
+            Utc::now().timestamp().saturating_sub(last_trial.timestamp) as f32 / (86_400.0);
         let average_score = recent_trials.map(|trial| trial.score).sum::<f32>() / 3.0;
         if reward > 0.0 && average_score < 3.0 && num_days < 7.0 {
             return false;
-- 
2.43.0


From 2fce14bcaf935556ec38a8f5bc90604e957dba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:02 +0000
Subject: [PATCH 20/32] fix: reach the first lessons of a course when another
 one has dependencies

A course was not a starting point of the search if any of its starting lessons had dependencies, so
its other starting lessons were never presented.
---
 src/graph.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 562b053..1be50ea 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -611,10 +611,11 @@ impl UnitGraph for InMemoryUnitGraph {
                 .collect();
 
             // Before updating the map, the dependency sinks need to be updated as well. The course
-            // is no longer a dependency sink if any of its starting lessons have dependencies to
-            // other valid units in the graph.
+            // is no longer a dependency sink if all of its starting lessons have dependencies to
+            // other valid units in the graph. Otherwise, the starting lessons without them could not
+            // be reached.
             if self.dependency_sinks.contains(course_id) {
-                let has_starting_dependencies = starting_lessons.iter().any(|lesson_id| {
+                let has_starting_dependencies = starting_lessons.iter().all(|lesson_id| {
                     self.get_dependencies(*lesson_id)
                         .is_some_and(|dependencies| {
                             !dependencies.is_empty()
@@ -623,7 +624,7 @@ impl UnitGraph for InMemoryUnitGraph {
                                     .all(|dep| self.get_unit_type(*dep).is_some())
                         })
                 });
-                if has_starting_dependencies {
+                if !starting_lessons.is_empty() && has_starting_dependencies {
                     Arc::make_mut(&mut self.dependency_sinks).remove(course_id);
                 }
             }
-- 
2.43.0


From aaf1d129ce7eb4a540dd67fd5c9102936a9f4d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:47 +0000
Subject: [PATCH 21/32] fix: consider lessons in a superseded course as
 satisfied dependencies

Their exercises are no longer scheduled, so if they were not passed before the course was superseded,
the lessons that depend on them could never be reached.
---
 src/scheduler.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index d27bbed..1623eae 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -557,12 +557,15 @@ impl DepthFirstScheduler {
             return true;
         }
 
-        // The dependency is considered as satisfied if it's been superseded by another unit.
-        let superseding = self.unit_scorer.get_superseding_recursive(dependency_id);
-        if let Some(superseding) = superseding
-            && self.unit_scorer.is_superseded(dependency_id, &superseding)
-        {
-            return true;
+        // The dependency is considered as satisfied if it or the course to which it belongs have been
+        // superseded by another unit, since its exercises are no longer scheduled.
+        for unit_id in [dependency_id, course_id] {
+            let superseding = self.unit_scorer.get_superseding_recursive(unit_id);
+            if let Some(superseding) = superseding
+                && self.unit_scorer.is_superseded(unit_id, &superseding)
+            {
+                return true;
+            }
         }
 
         // Finally, check if the unit passes the threshold to consider the dependency as satisfied.
-- 
2.43.0


From 691d95d17c07599f4732ffdcbbc9dbfb11b412e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:03 +0000
Subject: [PATCH 22/32] fix: apply new scheduler options to all the components
 of the scheduler

---
 src/scheduler.rs              | 12 ++++++++++--
 src/scheduler/relearn_pile.rs |  5 +++++
 src/scheduler/unit_scorer.rs  |  8 ++++++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 1623eae..06fb12c 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -1231,11 +1231,19 @@ impl ExerciseScheduler for DepthFirstScheduler {
     }
 
     fn set_scheduler_options(&mut self, options: SchedulerOptions) {
-        self.data.options = options;
+        // Every component holds its own copy of the options.
+        self.data.options = options.clone();
+        self.unit_scorer.set_options(options.clone());
+        self.reward_propagator = RewardPropagator {
+            data: self.data.clone(),
+        };
+        self.review_knocker = ReviewKnocker::new(self.data.clone());
+        self.filter = CandidateFilter::new(self.data.clone());
+        self.relearn_pile.set_options(options);
     }
 
     fn reset_scheduler_options(&mut self) {
-        self.data.options = SchedulerOptions::default();
+        self.set_scheduler_options(SchedulerOptions::default());
     }
 
     fn override_current_timestamp(&mut self, timestamp: Option<i64>) {
diff --git a/src/scheduler/relearn_pile.rs b/src/scheduler/relearn_pile.rs
index 777b499..f09f23e 100644
--- a/src/scheduler/relearn_pile.rs
+++ b/src/scheduler/relearn_pile.rs
@@ -29,6 +29,11 @@ impl RelearnPile {
         }
     }
 
+    /// Sets the scheduler options.
+    pub fn set_options(&mut self, options: SchedulerOptions) {
+        self.options = options;
+    }
+
     /// Updates the relearning pile based on the score of an exercise.
     pub fn update(&self, exercise_id: Ustr, score: &MasteryScore) {
         let mut relearning_pile = self.pile.write();
diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 374ab5d..76aafbc 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -135,6 +135,14 @@ impl UnitScorer {
         self.override_timestamp = timestamp;
     }
 
+    /// Sets the options used to schedule exercises and removes all the cached scores, which were
+    /// computed with the previous options.
+    pub(super) fn set_options(&mut self, options: SchedulerOptions) {
+        self.data.options = options.clone();
+        self.options = options;
+        self.invalidate_cached_scores_with_prefix("");
+    }
+
     /// Returns the current timestamp, using the override if set.
     fn now(&self) -> i64 {
         self.override_timestamp
-- 
2.43.0


From 59bb014bf3a74169064e7bdeda74e5a135f9e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 23/32] fix: use the configured number of deltas to compute
 scores

---
 src/scheduler/unit_scorer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 76aafbc..a03b6e4 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -269,7 +269,7 @@ impl UnitScorer {
             .data
             .practice_deltas
             .read()
-            .get_deltas(exercise_id, self.options.num_trials)?;
+            .get_deltas(exercise_id, self.options.num_deltas)?;
         let score = self
             .exercise_scorer
             .score(exercise_type, &scores, &deltas, self.now())?;
-- 
2.43.0


From f7af6d686537cbe2a8ff8fe0c780368460195f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:37 +0000
Subject: [PATCH 24/32] fix: include courses without lessons in the DOT graph

---
 src/graph.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index 1be50ea..907ca70 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -693,7 +693,14 @@ impl UnitGraph for InMemoryUnitGraph {
     fn generate_dot_graph(&self, courses_only: bool) -> String {
         // Initialize the output with the first line of the file.
         let mut output = String::from("digraph dependent_graph {\n");
-        let mut courses = self.course_lesson_map.keys().copied().collect::<Vec<_>>();
+
+        // Find all the courses, including those without any lessons.
+        let mut courses = self
+            .type_map
+            .iter()
+            .filter(|(_, unit_type)| **unit_type == UnitType::Course)
+            .map(|(course_id, _)| *course_id)
+            .collect::<Vec<_>>();
         courses.sort();
 
         // Add each course to the DOT graph.
-- 
2.43.0


From 0af8be47c15d8d9ba588bf745f1998f8012378e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:22 +0000
Subject: [PATCH 25/32] fix: fail to copy a library for a benchmark when part
 of it cannot be read

---
 src/benchmark.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/benchmark.rs b/src/benchmark.rs
index f90ce34..d043c61 100644
--- a/src/benchmark.rs
+++ b/src/benchmark.rs
@@ -193,7 +193,8 @@ impl Benchmark {
     /// Copies the library from the source directory to a temporary directory.
     fn copy_library_dir(src: &Path, dst: &Path) -> std::io::Result<()> {
         std::fs::create_dir_all(dst)?;
-        for entry in WalkDir::new(src).into_iter().filter_map(Result::ok) {
+        for entry in WalkDir::new(src) {
+            let entry = entry?;
             let path = entry.path();
             let relative = path.strip_prefix(src).unwrap();
             let dst_path = dst.join(relative);
-- 
2.43.0


From d5f5e29c94b983246b54f02d7827f6bf99b26f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:22 +0000
Subject: [PATCH 26/32] fix: give the paths of knowledge base lesson
 instructions and material relative to the lesson

---
 src/data/course_generator/knowledge_base.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data/course_generator/knowledge_base.rs b/src/data/course_generator/knowledge_base.rs
index 9e9c5e3..9e7b2c1 100644
--- a/src/data/course_generator/knowledge_base.rs
+++ b/src/data/course_generator/knowledge_base.rs
@@ -14,7 +14,7 @@ use ustr::{Ustr, UstrMap};
 use crate::{
     data::{
         BasicAsset, CourseManifest, ExerciseAsset, ExerciseManifest, ExerciseType,
-        GenerateManifests, GeneratedCourse, LessonManifest, UserPreferences,
+        GenerateManifests, GeneratedCourse, LessonManifest, NormalizePaths, UserPreferences,
     },
     utils::try_is_dir,
 };
@@ -674,7 +674,10 @@ impl GenerateManifests for KnowledgeBaseConfig {
         let manifests: Vec<(LessonManifest, Vec<ExerciseManifest>)> = lessons
             .into_iter()
             .map(|(_, (lesson, exercises))| {
-                let lesson_manifest = LessonManifest::from(lesson.clone());
+                // The instructions and material are relative to the lesson's directory.
+                let lesson_root = course_root.join(format!("{}{LESSON_SUFFIX}", lesson.short_id));
+                let lesson_manifest =
+                    LessonManifest::from(lesson.clone()).normalize_paths(&lesson_root)?;
                 let exercise_manifests = exercises
                     .into_iter()
                     .map(|e| {
-- 
2.43.0


From f2cd7f83c406ef3d3c9d7423e74a5d9e505a6d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:22 +0000
Subject: [PATCH 27/32] fix: drop the cached scores when the simulated time
 changes

---
 src/scheduler/unit_scorer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index a03b6e4..fead460 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -130,9 +130,17 @@ impl UnitScorer {
         }
     }
 
-    /// Sets the timestamp override used to compute scores.
+    /// Sets the timestamp override used to compute scores and removes all the cached scores, which
+    /// were computed with the previous timestamp.
     pub(super) fn set_override_timestamp(&mut self, timestamp: Option<i64>) {
+        if self.override_timestamp == timestamp {
+            return;
+        }
         self.override_timestamp = timestamp;
+        self.start_generation();
+        self.exercise_cache.borrow_mut().clear();
+        self.lesson_cache.borrow_mut().clear();
+        self.course_cache.borrow_mut().clear();
     }
 
     /// Sets the options used to schedule exercises and removes all the cached scores, which were
-- 
2.43.0


From 8dae016dd5ef2651a4969e849fbce69041c49eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:22 +0000
Subject: [PATCH 28/32] fix: apply rewards as of the simulated time

---
 src/reward_scorer.rs         | 37 +++++++++++++++++++++++++++++-------
 src/scheduler/unit_scorer.rs |  7 ++++---
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/reward_scorer.rs b/src/reward_scorer.rs
index 9da6039..7bd6b3b 100644
--- a/src/reward_scorer.rs
+++ b/src/reward_scorer.rs
@@ -16,11 +16,31 @@ pub trait RewardScorer {
         &self,
         previous_course_rewards: &[UnitReward],
         previous_lesson_rewards: &[UnitReward],
+    ) -> Result<f32> {
+        self.score_rewards_at(previous_course_rewards, previous_lesson_rewards, Utc::now())
+    }
+
+    /// Same as `score_rewards`, but computes the reward at the given time.
+    fn score_rewards_at(
+        &self,
+        previous_course_rewards: &[UnitReward],
+        previous_lesson_rewards: &[UnitReward],
+        now: DateTime<Utc>,
     ) -> Result<f32>;
 
     /// Determines whether the reward should be applied to an exercise with the given trials. The
     /// trials are assumed to be ordered in descending order by timestamp.
-    fn apply_reward(&self, reward: f32, previous_trials: &[ExerciseTrial]) -> bool;
+    fn apply_reward(&self, reward: f32, previous_trials: &[ExerciseTrial]) -> bool {
+        self.apply_reward_at(reward, previous_trials, Utc::now())
+    }
+
+    /// Same as `apply_reward`, but makes the decision at the given time.
+    fn apply_reward_at(
+        &self,
+        reward: f32,
+        previous_trials: &[ExerciseTrial],
+        now: DateTime<Utc>,
+    ) -> bool;
 }
 
 /// The reward half-life, in days, used to decay both reward values and reward weights.
@@ -86,13 +106,12 @@ impl WeightedRewardScorer {
 }
 
 impl RewardScorer for WeightedRewardScorer {
-    fn score_rewards(
+    fn score_rewards_at(
         &self,
         previous_course_rewards: &[UnitReward],
         previous_lesson_rewards: &[UnitReward],
+        now: DateTime<Utc>,
     ) -> Result<f32> {
-        let now = Utc::now();
-
         // Compute the lesson and course scores separately.
         let course_score = Self::weighted_average(previous_course_rewards, now);
         let lesson_score = Self::weighted_average(previous_lesson_rewards, now);
@@ -114,7 +133,12 @@ impl RewardScorer for WeightedRewardScorer {
         }
     }
 
-    fn apply_reward(&self, reward: f32, previous_trials: &[ExerciseTrial]) -> bool {
+    fn apply_reward_at(
+        &self,
+        reward: f32,
+        previous_trials: &[ExerciseTrial],
+        now: DateTime<Utc>,
+    ) -> bool {
         // Do not apply rewards to exercises with very few trials
         if previous_trials.len() <= 2 {
             return false;
@@ -125,8 +149,7 @@ impl RewardScorer for WeightedRewardScorer {
         // that are not being performed well.
         let recent_trials = previous_trials.iter().take(3);
         let last_trial = previous_trials.first().unwrap();
-        let num_days =
-            Utc::now().timestamp().saturating_sub(last_trial.timestamp) as f32 / (86_400.0);
+        let num_days = now.timestamp().saturating_sub(last_trial.timestamp) as f32 / (86_400.0);
         let average_score = recent_trials.map(|trial| trial.score).sum::<f32>() / 3.0;
         if reward > 0.0 && average_score < 3.0 && num_days < 7.0 {
             return false;
diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index fead460..0053103 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -6,7 +6,7 @@
 //>@lp-example-2
 
 use anyhow::{Result, anyhow};
-use chrono::Utc;
+use chrono::{DateTime, Utc};
 use parking_lot::{RwLock, RwLockReadGuard, RwLockWriteGuard};
 use std::sync::atomic::{AtomicU64, Ordering};
 use ustr::{Ustr, UstrMap, UstrSet};
@@ -289,13 +289,14 @@ impl UnitScorer {
         let lesson_rewards = rewards.get_rewards(lesson_id, self.options.num_rewards)?;
         let course_id = graph.get_lesson_course(lesson_id).unwrap_or_default();
         let course_rewards = rewards.get_rewards(course_id, self.options.num_rewards)?;
+        let now = DateTime::from_timestamp(self.now(), 0).unwrap_or_else(Utc::now);
         let reward = self
             .reward_scorer
-            .score_rewards(&course_rewards, &lesson_rewards)
+            .score_rewards_at(&course_rewards, &lesson_rewards, now)
             .unwrap_or_default();
 
         // Apply the reward if it meets the criteria and cache the final score.
-        let final_score = if self.reward_scorer.apply_reward(reward, &scores) {
+        let final_score = if self.reward_scorer.apply_reward_at(reward, &scores, now) {
             (score.value + reward).clamp(0.0, 5.0)
         } else {
             score.value
-- 
2.43.0


From accf684ce11540fa1887b420016b7549a4434732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:33 +0000
Subject: [PATCH 29/32] fix: look for courses in the resolved library root

The courses were found through the path as given, which is resolved against the
current directory of the process, while the lessons and ignored paths used the
absolute path.
---
 src/course_library.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/course_library.rs b/src/course_library.rs
index c7c23a1..3b7bb09 100644
--- a/src/course_library.rs
+++ b/src/course_library.rs
@@ -449,7 +449,7 @@ impl LocalCourseLibrary {
         // within the library root. However, the course manifests, assets, and its lessons and
         // exercises follow a fixed structure.
         let mut courses = Vec::new();
-        for entry in WalkDir::new(library_root).min_depth(2) {
+        for entry in WalkDir::new(&absolute_root).min_depth(2) {
             // Fail if a directory cannot be read, unless it is ignored. Otherwise, the courses in it
             // would be silently left out.
             let entry = match entry {
-- 
2.43.0


From 8bc09299d0b6445a7594d1b4fa3219cbbf282801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:33 +0000
Subject: [PATCH 30/32] fix: resolve the library root against the working
 directory for all files

The configuration directory and the databases were opened through the path as
given, relative to the current directory of the process, and the courses through
the path relative to the working directory.
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 28670e7..f6499be 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -300,6 +300,9 @@ impl Trane {
     /// directory. The working directory will be used to resolve relative paths.
     #[cfg_attr(coverage, coverage(off))]
     pub fn new_local(working_dir: &Path, library_root: &Path) -> Result<Trane> {
+        // Resolve the library root before using it, so that all the files are found in it.
+        let library_root = &working_dir.join(library_root);
+
         // Initialize the config directory.
         Self::init_config_directory(library_root)?;
 
@@ -311,7 +314,7 @@ impl Trane {
         }));
         let user_preferences = preferences_manager.read().get_user_preferences()?;
         let course_library = Arc::new(RwLock::new(LocalCourseLibrary::new(
-            &working_dir.join(library_root),
+            library_root,
             user_preferences.clone(),
         )?));
 
-- 
2.43.0


From 43e7da38603be1d9c263a3aabe929d44ad171a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:33 +0000
Subject: [PATCH 31/32] fix: do not follow every path when searching for
 dependencies at a depth

The search visited each dependency once per path to it, of which there can be
exponentially many.
---
 src/scheduler/data.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/scheduler/data.rs b/src/scheduler/data.rs
index 6943a0e..2b4fea7 100644
--- a/src/scheduler/data.rs
+++ b/src/scheduler/data.rs
@@ -3,7 +3,7 @@
 use anyhow::{Ok, Result, anyhow};
 use chrono::{DateTime, Utc};
 use parking_lot::RwLock;
-use std::sync::Arc;
+use std::{collections::HashSet, sync::Arc};
 use ustr::{Ustr, UstrMap, UstrSet};
 
 use crate::{
@@ -177,8 +177,14 @@ impl SchedulerData {
         // Search for the dependencies at the given depth.
         let mut dependencies = vec![];
         let mut stack = vec![(unit_id, 0)];
+        let mut visited = HashSet::new();
         let graph = self.unit_graph.read();
         while let Some((candidate_id, candidate_depth)) = stack.pop() {
+            // Skip candidates already reached at the same depth through another path.
+            if !visited.insert((candidate_id, candidate_depth)) {
+                continue;
+            }
+
             if candidate_depth == depth {
                 // Reached the end of the search.
                 dependencies.push(candidate_id);
-- 
2.43.0


From dd1ea8ab6ccabf58ac21aae6125efbb2184a08ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:33 +0000
Subject: [PATCH 32/32] fix: check each superseding unit once

The recursion visited each unit once per path of superseding units to it, of
which there can be exponentially many.
---
 src/scheduler/unit_scorer.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 0053103..6b504f9 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -379,22 +379,26 @@ impl UnitScorer {
     }
 
     /// Recursively check if each superseding unit has itself been superseded by another unit and
-    /// replace them from the original set with those units.
+    /// replace them from the original set with those units. Each unit is only checked once, even if
+    /// it supersedes many of the others.
     fn replace_superseding(&self, superseding_ids: &UstrSet) -> UstrSet {
         let mut result = UstrSet::default();
-        for id in superseding_ids.iter().copied() {
-            let superseding = self.data.get_superseding(id);
-            if let Some(superseding) = superseding {
-                // The unit has some superseding units of its own. If the unit has been superseded
-                // by them, recursively call this function. Otherwise, add the unit to the result.
-                if self.is_superseded(id, &superseding) {
-                    result.extend(self.replace_superseding(&superseding));
-                } else {
+        let mut visited = UstrSet::default();
+        let mut pending: Vec<Ustr> = superseding_ids.iter().copied().collect();
+        while let Some(id) = pending.pop() {
+            if !visited.insert(id) {
+                continue;
+            }
+
+            // If the unit has some superseding units of its own, and has been superseded by them,
+            // check those units instead. Otherwise, add the unit to the result.
+            match self.data.get_superseding(id) {
+                Some(superseding) if self.is_superseded(id, &superseding) => {
+                    pending.extend(superseding.iter().copied());
+                }
+                _ => {
                     result.insert(id);
                 }
-            } else {
-                // The unit has no superseding units, so add it to the result.
-                result.insert(id);
             }
         }
         result
-- 
2.43.0

