From 371e77c202c3ab658721994fd8d25381043c8d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH] fix: do not panic on instances whose rk is the identity

The zero encoding of a randomized validating key is accepted when an action
is parsed, but building the public inputs for such an action panicked, in
proof creation and in every form of proof verification. Represent the
identity as (0, 0), as the circuit does (and as is done for cv_net).
---
 src/circuit.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 567b606..ba38a74 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -2,7 +2,7 @@
 
 use core::fmt;
 
-use group::{Curve, GroupEncoding};
+use group::{prime::PrimeCurveAffine, Curve, GroupEncoding};
 use halo2_proofs::{
     circuit::{floor_planner, Layouter, Value},
     plonk::{
@@ -840,14 +840,17 @@ impl Instance {
         instance[CV_NET_Y] = self.cv_net.y();
         instance[NF_OLD] = self.nf_old.0;
 
+        // The identity is a valid encoding of `rk`, but has no affine coordinates. The
+        // circuit represents it as (0, 0), so in that case the columns are left as zero.
         let rk = pallas::Point::from_bytes(&self.rk.clone().into())
             .unwrap()
-            .to_affine()
-            .coordinates()
-            .unwrap();
+            .to_affine();
+        if !bool::from(rk.is_identity()) {
+            let rk = rk.coordinates().unwrap();
+            instance[RK_X] = *rk.x();
+            instance[RK_Y] = *rk.y();
+        }
 
-        instance[RK_X] = *rk.x();
-        instance[RK_Y] = *rk.y();
         instance[CMX] = self.cmx.inner();
         instance[ENABLE_SPEND] = vesta::Scalar::from(u64::from(self.enable_spend));
         instance[ENABLE_OUTPUT] = vesta::Scalar::from(u64::from(self.enable_output));
-- 
2.43.0

