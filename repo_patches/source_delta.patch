From ec147c6620d4ddcf3a826ef08724214670f46994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 1/2] fix: do not underflow factored width when the cofactor
 exceeds the tree width

A deserialized MPC proof or block may carry any cofactor. Position computing
already saturates the factored width; do the same in its accessors.
---
 commit_verify/src/mpc/block.rs | 4 ++--
 commit_verify/src/mpc/tree.rs  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index a7125ec..2cd6efe 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -599,7 +599,7 @@ Changed commitment id: {}",
 
     /// Computes the factored width of the merkle tree according to the formula
     /// `2 ^ depth - cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    pub fn factored_width(&self) -> u32 { self.width_limit().saturating_sub(self.cofactor as u32) }
 
     pub fn known_protocol_ids(&self) -> impl Iterator<Item = ProtocolId> + '_ {
         self.cross_section.iter().filter_map(|item| match item {
@@ -704,7 +704,7 @@ impl MerkleProof {
 
     /// Computes the factored width of the merkle tree according to the formula
     /// `2 ^ depth - cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    pub fn factored_width(&self) -> u32 { self.width_limit().saturating_sub(self.cofactor as u32) }
 
     /// Converts the proof into inner merkle path representation
     pub fn into_path(self) -> Confined<Vec<MerkleHash>, 0, 32> { self.path }
diff --git a/commit_verify/src/mpc/tree.rs b/commit_verify/src/mpc/tree.rs
index f1999fc..7baa7dd 100644
--- a/commit_verify/src/mpc/tree.rs
+++ b/commit_verify/src/mpc/tree.rs
@@ -199,7 +199,7 @@ impl MerkleTree {
 
     /// Computes the factored width of the merkle tree, equal to `2 ^ depth -
     /// cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    pub fn factored_width(&self) -> u32 { self.width_limit().saturating_sub(self.cofactor as u32) }
 
     pub fn depth(&self) -> u5 { self.depth }
 
-- 
2.43.0


From 8aabd006711017c15790cb638b467a5ab46e10ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:58 +0000
Subject: [PATCH 2/2] fix: report an MPC proof with a 32-element path as
 invalid instead of panicking

The path type admits 32 elements while the tree depth type ends at 31, so
convolving (or merging) such a deserialized proof crashed on u5::with.
---
 commit_verify/src/mpc/block.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index 2cd6efe..90ca241 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -243,7 +243,9 @@ impl MerkleBlock {
         let mut width_limit = proof.width_limit();
 
         let expected = protocol_id_pos(protocol_id, proof.cofactor, proof.depth());
-        if expected != pos {
+        // A path may hold one element more than the maximal tree depth
+        let is_too_deep = path.len() > u5::MAX.to_u8() as usize;
+        if expected != pos || is_too_deep {
             return Err(InvalidProof {
                 protocol_id,
                 expected,
@@ -697,7 +699,10 @@ impl Proof for MerkleProof {
 
 impl MerkleProof {
     /// Computes the depth of the merkle tree.
-    pub fn depth(&self) -> u5 { u5::with(self.path.len() as u8) }
+    ///
+    /// A path which is too long for any merkle tree (such a proof is always
+    /// invalid) is measured as having the maximal depth.
+    pub fn depth(&self) -> u5 { u5::try_from(self.path.len() as u8).unwrap_or(u5::MAX) }
 
     /// Computes the maximum width of the merkle tree.
     pub fn width_limit(&self) -> u32 { 2u32.pow(self.depth().to_u8() as u32) }
-- 
2.43.0

