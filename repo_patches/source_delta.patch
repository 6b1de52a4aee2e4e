From 67abbb0ebc0dbdd6b5b490dbf1bcfc213c278beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:49 +0000
Subject: [PATCH 1/7] fix: do not overflow when computing the root's rough
 bound of a negative-valued sub-problem

---
 src/mdd/with_all.rs     | 2 +-
 src/mdd/with_barrier.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 53f424d..8db3bed 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -227,7 +227,7 @@ where
             best: None,
             inbound: None,
             value_bot: isize::MIN,
-            rub: input.residual.ub - root_v,
+            rub: input.residual.ub.saturating_sub(root_v),
             flags: NodeFlags::new_exact(),
         };
         input
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index d6c496d..c1dcfce 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -252,7 +252,7 @@ where
             depth: root_depth,
             value_bot: isize::MIN,
             theta: isize::MAX,
-            rub: input.residual.ub - root_v,
+            rub: input.residual.ub.saturating_sub(root_v),
             flags: NodeFlags::new_exact(),
         };
 
-- 
2.43.0


From 9186fe2270358e9c03732ef512b5e1f774446915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:49 +0000
Subject: [PATCH 2/7] fix: report inexactness when compilation stops early on
 an empty layer after a restriction

---
 src/mdd/with_all.rs     | 1 +
 src/mdd/with_barrier.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 8db3bed..6e10c78 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -250,6 +250,7 @@ where
             }
 
             if curr_l.is_empty() {
+                self.exact = self._is_exact(input.comp_type);
                 return;
             }
 
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index c1dcfce..2faca9b 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -271,6 +271,7 @@ where
             }
 
             if curr_l.is_empty() {
+                self.exact = self._is_exact(input.comp_type);
                 return;
             }
 
-- 
2.43.0


From 32bdcb339f42d043215fce51bd430aa19fea0e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:49 +0000
Subject: [PATCH 3/7] fix: keep a valid upper bound when the search is
 interrupted

---
 src/solver/barrier.rs  | 30 +++++++++++++++++-------------
 src/solver/parallel.rs | 30 +++++++++++++++++-------------
 2 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index ce95131..52a0988 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -335,7 +335,7 @@ where
         }
 
         // Are we done ?
-        if critical.ongoing == 0 && critical.fringe.is_empty() {
+        if !critical.interrupted && critical.ongoing == 0 && critical.fringe.is_empty() {
             critical.best_ub = critical.best_lb;
             return WorkLoad::Complete;
         }
@@ -346,18 +346,22 @@ where
         } else if interrupt() {
             critical.interrupted = true;
 
-            critical.best_ub = if critical.ongoing > 0 {
-                critical
-                    .upper_bounds
-                    .iter()
-                    .copied()
-                    .filter(|x| *x != isize::MAX)
-                    .max()
-                    .unwrap_or(isize::MAX)
-            } else {
-                let nn = critical.fringe.pop().unwrap();
-                nn.ub
-            };
+            let mut best_ub = critical.best_lb;
+            if critical.ongoing > 0 {
+                best_ub = best_ub.max(
+                    critical
+                        .upper_bounds
+                        .iter()
+                        .copied()
+                        .filter(|x| *x != isize::MAX)
+                        .max()
+                        .unwrap_or(isize::MAX),
+                );
+            }
+            if let Some(nn) = critical.fringe.pop() {
+                best_ub = best_ub.max(nn.ub);
+            }
+            critical.best_ub = best_ub;
 
             critical.fringe.clear();
             return WorkLoad::Interruption;
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index c5a68f4..2410493 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -305,7 +305,7 @@ where
         let mut critical = shared.critical.lock();
 
         // Are we done ?
-        if critical.ongoing == 0 && critical.fringe.is_empty() {
+        if !critical.interrupted && critical.ongoing == 0 && critical.fringe.is_empty() {
             critical.best_ub = critical.best_lb;
             return WorkLoad::Complete;
         }
@@ -316,18 +316,22 @@ where
         } else if interrupt() {
             critical.interrupted = true;
 
-            critical.best_ub = if critical.ongoing > 0 {
-                critical
-                    .upper_bounds
-                    .iter()
-                    .copied()
-                    .filter(|x| *x != isize::MAX)
-                    .max()
-                    .unwrap_or(isize::MAX)
-            } else {
-                let nn = critical.fringe.pop().unwrap();
-                nn.ub
-            };
+            let mut best_ub = critical.best_lb;
+            if critical.ongoing > 0 {
+                best_ub = best_ub.max(
+                    critical
+                        .upper_bounds
+                        .iter()
+                        .copied()
+                        .filter(|x| *x != isize::MAX)
+                        .max()
+                        .unwrap_or(isize::MAX),
+                );
+            }
+            if let Some(nn) = critical.fringe.pop() {
+                best_ub = best_ub.max(nn.ub);
+            }
+            critical.best_ub = best_ub;
 
             critical.fringe.clear();
             return WorkLoad::Interruption;
-- 
2.43.0


From 0c3c3860a38391abe712b220d5b6fcd24e33e42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:49 +0000
Subject: [PATCH 4/7] fix: resize the per-thread upper bounds when the number
 of threads is configured

---
 src/solver/barrier.rs  | 1 +
 src/solver/parallel.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index 52a0988..2eaad63 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -190,6 +190,7 @@ where
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
         self.nb_threads = nb_threads;
+        self.shared.critical.get_mut().upper_bounds = vec![isize::MAX; nb_threads];
         self
     }
 
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index 2410493..66797e7 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -173,6 +173,7 @@ where
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
         self.nb_threads = nb_threads;
+        self.shared.critical.get_mut().upper_bounds = vec![isize::MAX; nb_threads];
         self
     }
 
-- 
2.43.0


From 6163c3a2640ba47c83a24b4c071dda59bca6fd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:49 +0000
Subject: [PATCH 5/7] fix: keep exact terminal nodes in the frontier cutset of
 an inexact relaxed diagram

---
 src/mdd/with_all.rs     | 4 ++++
 src/mdd/with_barrier.rs | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 6e10c78..ae1bf6d 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -482,6 +482,10 @@ where
             for id in self.next_l.values().copied() {
                 self.nodes[id.0].value_bot = 0;
                 self.nodes[id.0].flags.set_marked(true);
+                if self.cutset_type == CutsetType::Frontier && self.nodes[id.0].flags.is_exact() {
+                    self.nodes[id.0].flags.set_cutset(true);
+                    self.cutset.push(id);
+                }
                 visit.push(id);
             }
 
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index 2faca9b..429dff2 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -545,6 +545,7 @@ where
                 self.nodes[node_id.0].flags.set_cutset(true);
             } else if self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_exact() {
                 self.nodes[node_id.0].flags.set_cutset(true);
+                self.cutset.push(*node_id);
             }
         }
 
-- 
2.43.0


From 4982919ef0ed1b553e0463a3a045896e7e965157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:28 +0000
Subject: [PATCH 6/7] fix: report a meaningful gap when the bounds are unknown,
 zero or of opposite signs

---
 src/xputils.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/xputils.rs b/src/xputils.rs
index 36cf991..21db4dd 100644
--- a/src/xputils.rs
+++ b/src/xputils.rs
@@ -169,12 +169,14 @@ where
 }
 
 fn gap(lb: isize, ub: isize) -> f32 {
-    let aub = ub.abs();
-    let alb = lb.abs();
-    let u = aub.max(alb);
-    let l = aub.min(alb);
+    let diff = ub.abs_diff(lb);
+    let scale = ub.unsigned_abs().max(lb.unsigned_abs());
 
-    (u - l) as f32 / u as f32
+    if diff == 0 {
+        0.0
+    } else {
+        (diff as f32 / scale as f32).min(1.0)
+    }
 }
 
 pub fn resolution_header() {
-- 
2.43.0


From e21ffa18837a545300b88ecfc5d951961bdf7a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:07 +0000
Subject: [PATCH 7/7] fix: barrier solver could discard the optimum with a
 bound that ignores completions owned by another thread

A cutset node's bound does not account for the completions below nodes pruned
by a threshold: these are left to the owner of the threshold. If the owner is
still being processed when the cutset node is popped, that bound may be lower
than the best completion, and the thresholds derived while processing the node
can cut the owner's own search. Raise the bound of the popped node to the
bounds of the nodes being processed.
---
 src/solver/barrier.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index 2eaad63..40ab2bf 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -408,6 +408,13 @@ where
         // Consume the current node and process it
         critical.ongoing += 1;
         critical.explored += 1;
+        // A cutset node is enqueued with a bound that does not account for the
+        // completions which were left to the owners of the thresholds met in
+        // its diagram. When such an owner is still being processed, the bound
+        // of `nn` alone could be used to discard these completions: they are
+        // however covered by the bounds of the nodes being processed.
+        let ongoing_ub = critical.upper_bounds.iter().copied().filter(|x| *x != isize::MAX).max();
+        nn.ub = ongoing_ub.map_or(nn.ub, |ub| nn.ub.max(ub));
         critical.upper_bounds[thread_id] = nn.ub;
 
         let depth = nn.path.len();
-- 
2.43.0

