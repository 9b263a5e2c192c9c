From 6ac1f72e9f8696c611f5c7e7b6a547870990bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:55 +0000
Subject: [PATCH 1/3] fix: never derive a zero SLOW_LIMIT from a small
 PRECHECK_LIMIT

With PRECHECK_LIMIT below 10 the derived default of SLOW_LIMIT was zero, so the
slow phase never ran and cycle-safe comparison of cyclic graphs never ended.
---
 src/cycle_safe.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cycle_safe.rs b/src/cycle_safe.rs
index 3a9bf25..7052501 100644
--- a/src/cycle_safe.rs
+++ b/src/cycle_safe.rs
@@ -138,8 +138,12 @@ pub mod modes
             const FAST_LIMIT_MAX: u16 = 2 * Self::PRECHECK_LIMIT;
             /// How many nodes, consecutively, that have not already been seen, are traversed by
             /// the "slow" phase before switching to the "fast" phase.
+            ///
+            /// Must not be zero, because the "slow" phase would never be done, which would cause
+            /// infinite loops on cyclic graphs.
             #[allow(clippy::integer_division)]
-            const SLOW_LIMIT: u16 = Self::PRECHECK_LIMIT / 10;
+            const SLOW_LIMIT: u16 =
+                if Self::PRECHECK_LIMIT < 10 { 1 } else { Self::PRECHECK_LIMIT / 10 };
 
             /// Type of node that is recorded as equivalent in the [`Self::Table`].  Must be the
             /// same as used with the corresponding [`equiv::Params`].
-- 
2.43.0


From 7d4db2feb95d1e754d380a0059571c75665579e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:29 +0000
Subject: [PATCH 2/3] fix: ask for each edge at most twice also where the
 amounts of edges differ

The lazy stack and queue, having yielded that the amounts of edges differ, looked whether
there was more and asked both nodes a third time for the edge at that index, contrary to
what Node::get_edge promises.  EdgesIter now ends after yielding the difference.
---
 src/generic.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/generic.rs b/src/generic.rs
index 549fbd1..8c3f64f 100644
--- a/src/generic.rs
+++ b/src/generic.rs
@@ -351,8 +351,18 @@ mod edges_iter
                         }
                         None
                     },
-                    [None, Some(_)] => Some(Err(N::Cmp::from_ord(Ordering::Less))),
-                    [Some(_), None] => Some(Err(N::Cmp::from_ord(Ordering::Greater))),
+                    [None, Some(_)] => {
+                        if advance {
+                            self.next_index = None;
+                        }
+                        Some(Err(N::Cmp::from_ord(Ordering::Less)))
+                    },
+                    [Some(_), None] => {
+                        if advance {
+                            self.next_index = None;
+                        }
+                        Some(Err(N::Cmp::from_ord(Ordering::Greater)))
+                    },
                 }
             }
             else {
-- 
2.43.0


From 8199e561c0674c79dd35fc80a2dc5492e1157be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 3/3] fix: build with the fastrand feature but without std

The module of fastrand needs std, but with fastrand as the only generator it was re-exported as the
default also without, so that the crate did not compile.
---
 src/cycle_safe/modes/interleave/random/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cycle_safe/modes/interleave/random/mod.rs b/src/cycle_safe/modes/interleave/random/mod.rs
index d45d15a..244ab14 100644
--- a/src/cycle_safe/modes/interleave/random/mod.rs
+++ b/src/cycle_safe/modes/interleave/random/mod.rs
@@ -18,7 +18,7 @@ cfg_if! {
     else if #[cfg(feature = "oorandom")] {
         pub use self::oorandom as default;
     }
-    else if #[cfg(feature = "fastrand")] {
+    else if #[cfg(all(feature = "fastrand", feature = "std"))] {
         pub use self::fastrand as default;
     }
 }
-- 
2.43.0

