From f5ab8760e333d818d29c64757e334663574a89f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 1/3] fix: end the edges iteration after yielding a difference
 in amount of edges

EdgesIter yielded the same Err forever, so a RecurMode that collects it never
finished, and get_edge was called more often per index than documented.
---
 src/generic.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/generic.rs b/src/generic.rs
index 549fbd1..8c3f64f 100644
--- a/src/generic.rs
+++ b/src/generic.rs
@@ -351,8 +351,18 @@ mod edges_iter
                         }
                         None
                     },
-                    [None, Some(_)] => Some(Err(N::Cmp::from_ord(Ordering::Less))),
-                    [Some(_), None] => Some(Err(N::Cmp::from_ord(Ordering::Greater))),
+                    [None, Some(_)] => {
+                        if advance {
+                            self.next_index = None;
+                        }
+                        Some(Err(N::Cmp::from_ord(Ordering::Less)))
+                    },
+                    [Some(_), None] => {
+                        if advance {
+                            self.next_index = None;
+                        }
+                        Some(Err(N::Cmp::from_ord(Ordering::Greater)))
+                    },
                 }
             }
             else {
-- 
2.43.0


From caad6dbfa916d06038d1fc62e255b21cc05069a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 2/3] fix: always have a slow phase, even with a SLOW_LIMIT of
 zero

A PRECHECK_LIMIT below 10 derives a SLOW_LIMIT of zero, which made the
interleave never consult nor fill its table, and so never end on cycles.
---
 src/cycle_safe.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cycle_safe.rs b/src/cycle_safe.rs
index 3a9bf25..e20eb85 100644
--- a/src/cycle_safe.rs
+++ b/src/cycle_safe.rs
@@ -173,9 +173,11 @@ pub mod modes
                     #[allow(clippy::panic)]
                     None => panic!(),
                 };
-            /// Negated [`P::SLOW_LIMIT`](Params::SLOW_LIMIT).
+            /// Negated [`P::SLOW_LIMIT`](Params::SLOW_LIMIT), but never zero because the "slow"
+            /// phase must always be reached for cycles to be detected.
             #[allow(clippy::as_conversions)]
-            pub const SLOW_LIMIT_NEG: i32 = -(P::SLOW_LIMIT as i32);
+            pub const SLOW_LIMIT_NEG: i32 =
+                if P::SLOW_LIMIT == 0 { -1 } else { -(P::SLOW_LIMIT as i32) };
         }
 
         impl<P: Params> Default for Interleave<P>
-- 
2.43.0


From a402344930b7c199ffc37b017d40098a0ca73431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 3/3] fix: the fastrand feature without the std feature
 compiles

---
 src/cycle_safe/modes/interleave/random/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cycle_safe/modes/interleave/random/mod.rs b/src/cycle_safe/modes/interleave/random/mod.rs
index d45d15a..244ab14 100644
--- a/src/cycle_safe/modes/interleave/random/mod.rs
+++ b/src/cycle_safe/modes/interleave/random/mod.rs
@@ -18,7 +18,7 @@ cfg_if! {
     else if #[cfg(feature = "oorandom")] {
         pub use self::oorandom as default;
     }
-    else if #[cfg(feature = "fastrand")] {
+    else if #[cfg(all(feature = "fastrand", feature = "std"))] {
         pub use self::fastrand as default;
     }
 }
-- 
2.43.0

