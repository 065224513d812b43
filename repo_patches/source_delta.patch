From 0913762d4f51c68d307de78ad7b2361cadd5060e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 1/6] fix: kill_worst kills exactly the worst alive individuals

---
 optlib/src/genetic/selection/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/optlib/src/genetic/selection/mod.rs b/optlib/src/genetic/selection/mod.rs
index 4c05858..69e2bf7 100644
--- a/optlib/src/genetic/selection/mod.rs
+++ b/optlib/src/genetic/selection/mod.rs
@@ -57,31 +57,34 @@ impl<T: Clone> Selection<T> for LimitPopulation {
 pub fn kill_worst<T: Clone>(population: &mut Population<T>, count: usize) {
     // List of indexes of individuals in population to be kill
     let mut kill_list: Vec<usize> = Vec::with_capacity(count);
-    kill_list.push(0);
+    if count == 0 {
+        return;
+    }
 
     // Index of the items in kill_list with best fitness
     let mut best_index = 0;
-    let mut best_fitness = population[kill_list[best_index]].get_fitness();
+    let mut best_fitness = f64::NAN;
 
-    for n in 1..population.len() {
+    for n in 0..population.len() {
         if !population[n].is_alive() {
             continue;
         }
 
         if kill_list.len() < count {
             kill_list.push(n);
-            if population[n].get_fitness() < best_fitness {
+            if is_better(population[n].get_fitness(), best_fitness) {
                 best_index = kill_list.len() - 1;
+                best_fitness = population[n].get_fitness();
             }
         } else {
-            if population[n].get_fitness() > best_fitness {
+            if is_better(best_fitness, population[n].get_fitness()) {
                 kill_list[best_index] = n;
 
                 // Find new best item
                 best_index = 0;
                 best_fitness = population[kill_list[best_index]].get_fitness();
                 for m in 1..kill_list.len() {
-                    if population[kill_list[m]].get_fitness() < best_fitness {
+                    if is_better(population[kill_list[m]].get_fitness(), best_fitness) {
                         best_index = m;
                         best_fitness = population[kill_list[best_index]].get_fitness();
                     }
@@ -94,3 +97,8 @@ pub fn kill_worst<T: Clone>(population: &mut Population<T>, count: usize) {
         population[n].kill();
     }
 }
+
+/// Returns true if `fitness_1` is better than `fitness_2`. NaN is worse than any other value.
+fn is_better(fitness_1: f64, fitness_2: f64) -> bool {
+    fitness_1 < fitness_2 || (fitness_2.is_nan() && !fitness_1.is_nan())
+}
-- 
2.43.0


From 3b048c30e969159217d4901e60f2653dcf7e621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 2/6] fix: GoalNotChange may be used for several runs of an
 optimizer

---
 optlib/src/tools/stopchecker/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/optlib/src/tools/stopchecker/mod.rs b/optlib/src/tools/stopchecker/mod.rs
index 476eb40..88f50e1 100644
--- a/optlib/src/tools/stopchecker/mod.rs
+++ b/optlib/src/tools/stopchecker/mod.rs
@@ -88,6 +88,7 @@ pub struct GoalNotChange {
 
     old_goal: f64,
     change_iter: usize,
+    last_iter: usize,
 }
 
 impl GoalNotChange {
@@ -104,12 +105,20 @@ impl GoalNotChange {
             delta,
             old_goal: f64::MAX,
             change_iter: 0,
+            last_iter: 0,
         }
     }
 }
 
 impl<T> StopChecker<T> for GoalNotChange {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
+        if state.get_iteration() < self.last_iter {
+            // The algorithm was restarted
+            self.old_goal = f64::MAX;
+            self.change_iter = 0;
+        }
+        self.last_iter = state.get_iteration();
+
         match state.get_best_solution() {
             None => false,
             Some((_, best_goal)) => {
-- 
2.43.0


From 77a8797e2360133c272dc5e4efaebd32c9556091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 3/6] fix: pairing does not panic if the population is empty

---
 optlib/src/genetic/pairing/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/optlib/src/genetic/pairing/mod.rs b/optlib/src/genetic/pairing/mod.rs
index e7d8204..f9d74f7 100644
--- a/optlib/src/genetic/pairing/mod.rs
+++ b/optlib/src/genetic/pairing/mod.rs
@@ -14,6 +14,10 @@ pub struct RandomPairing {
 impl<T> Pairing<T> for RandomPairing {
     fn get_pairs(&mut self, population: &Population<T>) -> Vec<Vec<usize>> {
         let mut pairs: Vec<Vec<usize>> = vec![];
+        if population.len() == 0 {
+            return pairs;
+        }
+
 
         let between = Uniform::new(0, population.len());
         let count = population.len() / 2;
@@ -77,6 +81,10 @@ impl Tournament {
 impl<T> Pairing<T> for Tournament {
     fn get_pairs(&mut self, population: &Population<T>) -> Vec<Vec<usize>> {
         let mut pairs: Vec<Vec<usize>> = Vec::with_capacity(self.families_count);
+        if population.len() == 0 {
+            return pairs;
+        }
+
         let between = Uniform::new(0, population.len());
 
         // Loop for families count
-- 
2.43.0


From 805e3197eea8639ceee6a908c0411c16787928f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 4/6] fix: individual with NaN fitness can not win a tournament
 against a number

---
 optlib/src/genetic/pairing/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optlib/src/genetic/pairing/mod.rs b/optlib/src/genetic/pairing/mod.rs
index f9d74f7..cfb6df9 100644
--- a/optlib/src/genetic/pairing/mod.rs
+++ b/optlib/src/genetic/pairing/mod.rs
@@ -98,7 +98,9 @@ impl<T> Pairing<T> for Tournament {
                 // Loop for tournaments rounds
                 for _ in 0..self.rounds_count {
                     let challenger = between.sample(&mut self.random);
-                    if population[challenger].get_goal() < population[best_ind_index].get_goal() {
+                    if population[challenger].get_goal() < population[best_ind_index].get_goal()
+                        || population[best_ind_index].get_goal().is_nan()
+                    {
                         best_ind_index = challenger;
                     }
                 }
-- 
2.43.0


From bbf5bceefc44ebbc77b60c96470b5b4ce9a21cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 5/6] fix: solution with NaN coordinates is not success

---
 optlib/src/tools/statistics/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index 9867a05..f08ba19 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -94,7 +94,7 @@ pub fn get_predicate_success_vec_solution<T: Float>(
 
     move |(answer, _): &(Vec<T>, GoalValue)| {
         for (x, (e, d)) in answer.iter().zip(expected.iter().zip(delta.iter())) {
-            if (*x - *e).abs() > *d {
+            if !((*x - *e).abs() <= *d) {
                 return false;
             }
         }
-- 
2.43.0


From 9a00ce960583804db8dec101968eb1f830099139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:23 +0000
Subject: [PATCH 6/6] fix: composite stop checker asks every checker at every
 iteration

---
 optlib/src/tools/stopchecker/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/optlib/src/tools/stopchecker/mod.rs b/optlib/src/tools/stopchecker/mod.rs
index 88f50e1..40c9687 100644
--- a/optlib/src/tools/stopchecker/mod.rs
+++ b/optlib/src/tools/stopchecker/mod.rs
@@ -25,13 +25,15 @@ impl<T> CompositeAny<T> {
 
 impl<T> StopChecker<T> for CompositeAny<T> {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
+        // Every checker is asked because checkers may have memory (see GoalNotChange)
+        let mut stop = false;
         for checker in &mut self.stop_checkers {
             if checker.can_stop(state) {
-                return true;
+                stop = true;
             }
         }
 
-        false
+        stop
     }
 }
 
@@ -50,13 +52,15 @@ impl<T> CompositeAll<T> {
 
 impl<T> StopChecker<T> for CompositeAll<T> {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
+        // Every checker is asked because checkers may have memory (see GoalNotChange)
+        let mut stop = true;
         for checker in &mut self.stop_checkers {
             if !checker.can_stop(state) {
-                return false;
+                stop = false;
             }
         }
 
-        true
+        stop
     }
 }
 
-- 
2.43.0

