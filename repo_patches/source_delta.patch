From d34b005d9bd8fe800a15704efaaebc4a4e5c7332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:31 +0000
Subject: [PATCH 1/2] fix: make Evaluator::default() build the lookup tables

The derived Default left the tables empty, so every evaluation with a
default evaluator panicked.
---
 src/evaluate/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/evaluate/mod.rs b/src/evaluate/mod.rs
index cffc1bd..ba7027e 100644
--- a/src/evaluate/mod.rs
+++ b/src/evaluate/mod.rs
@@ -73,9 +73,13 @@ use crate::{card::Card, error::EvalError, evaluate::lookup_table::LookupTable};
 ///     "Full house, jacks over fours"
 /// );
 /// ```
-#[derive(Clone, Debug, PartialEq, Eq, Default)]
+#[derive(Clone, Debug, PartialEq, Eq)]
 pub struct Evaluator(LookupTable);
 
+impl Default for Evaluator {
+    fn default() -> Self { Self::new() }
+}
+
 impl Evaluator {
     /// Create a new [`Evaluator`]. Try to call this method only once and share
     /// the instance as much as possible.
-- 
2.43.0


From 51f8fcd6c130e0afbe3ba95f734305fcd886c75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:31 +0000
Subject: [PATCH 2/2] fix: report the length of a refused card text in
 characters

The message said e.g. 'Found input of length 2, expected 2' for a single
two-byte character.
---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 4d8f05c..de5e236 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -104,7 +104,7 @@ impl fmt::Display for ParseCardError {
                 f,
                 "Error parsing input '{}' as a Card: Found input of length {}, expected 2",
                 original_input,
-                original_input.len()
+                original_input.chars().count()
             ),
             Self::InvalidRank {
                 ref original_input,
-- 
2.43.0

