From 8d46d4b719cec61d6fbfb0eb9ba58c1dcff2f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 01/14] fix: lexicographically_largest is strict for (p - 1) /
 2

---
 derive/src/field/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/field/mod.rs b/derive/src/field/mod.rs
index 566fb9e..cc06f37 100644
--- a/derive/src/field/mod.rs
+++ b/derive/src/field/mod.rs
@@ -113,7 +113,8 @@ pub(crate) fn impl_field(input: TokenStream) -> TokenStream {
     let modulus_limbs_32_ident = quote! {[#(#modulus_limbs_32,)*]};
 
     let to_token = |e: &BigUint| big_to_token(e, num_limbs);
-    let half_modulus = (&modulus - 1usize) >> 1;
+    // smallest integer above half of the modulus
+    let half_modulus = (&modulus + 1usize) >> 1;
     let half_modulus = to_token(&half_modulus);
 
     // binary modulus
-- 
2.43.0


From 7c4da092c31c91057ca210c8c139f668f710b58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 02/14] fix: CubicExtField::is_zero tests all three
 coefficients

---
 src/ff_ext/cubic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff_ext/cubic.rs b/src/ff_ext/cubic.rs
index 70af416..27a0a39 100644
--- a/src/ff_ext/cubic.rs
+++ b/src/ff_ext/cubic.rs
@@ -201,7 +201,7 @@ where
     }
 
     fn is_zero(&self) -> subtle::Choice {
-        self.c0.is_zero() & self.c1.is_zero()
+        self.c0.is_zero() & self.c1.is_zero() & self.c2.is_zero()
     }
 
     fn square(&self) -> Self {
-- 
2.43.0


From a6a46d2d1a5f7b6e5cdb5b7c9f110fe4898595bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 03/14] fix: Fp2 from_repr and from_bytes report non-canonical
 coefficients instead of panicking

---
 src/derive/field/tower.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/derive/field/tower.rs b/src/derive/field/tower.rs
index 9f508fb..de55de5 100644
--- a/src/derive/field/tower.rs
+++ b/src/derive/field/tower.rs
@@ -41,13 +41,7 @@ macro_rules! impl_tower2 {
             pub fn from_bytes(bytes: &[u8; $base::SIZE * 2]) -> CtOption<$field> {
                 let c0 = $base::from_bytes(bytes[0..$base::SIZE].try_into().unwrap());
                 let c1 = $base::from_bytes(bytes[$base::SIZE..$base::SIZE * 2].try_into().unwrap());
-                CtOption::new(
-                    $field {
-                        c0: c0.unwrap(),
-                        c1: c1.unwrap(),
-                    },
-                    c0.is_some() & c1.is_some(),
-                )
+                c0.and_then(|c0| c1.map(|c1| $field { c0, c1 }))
             }
 
             /// Converts an element of `$base` into a byte representation in
@@ -132,7 +126,7 @@ macro_rules! impl_tower2 {
                 let c1: <$base as PrimeField>::Repr = c1.into();
                 let c1 = $base::from_repr(c1);
 
-                CtOption::new($field::new(c0.unwrap(), c1.unwrap()), Choice::from(1))
+                c0.and_then(|c0| c1.map(|c1| $field::new(c0, c1)))
             }
 
             fn to_repr(&self) -> Self::Repr {
-- 
2.43.0


From dae6d8831f0cdea06cbffb7ed2a7a493e66879c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 04/14] fix: sqrt_algo10 returns zero for zero instead of
 recursing without end

---
 src/ff_ext/quadratic.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ff_ext/quadratic.rs b/src/ff_ext/quadratic.rs
index 59c779c..651f468 100644
--- a/src/ff_ext/quadratic.rs
+++ b/src/ff_ext/quadratic.rs
@@ -102,6 +102,10 @@ pub fn sqrt_algo10<F: ExtField, S: AsRef<[u64]>>(
 where
     QuadExtField<F>: QuadExtFieldArith<Base = F> + ExtField,
 {
+    if el.is_zero().into() {
+        return CtOption::new(QuadExtField::ZERO, Choice::from(1));
+    }
+
     let b = el.pow_vartime(q_minus_1_over_4);
 
     let b_2 = b.square();
-- 
2.43.0


From f276b3818c4523fb8e01146db7d8850ecbad14fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 05/14] hook: expose CurveEndo under cfg(mirv_hooks)

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f5caae2..a89334b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -23,5 +23,9 @@ pub use group;
 pub use pairing;
 pub use pasta_curves::arithmetic::{Coordinates, CurveAffine, CurveExt};
 
+// Private items the verification harness calls (never set in ordinary builds).
+#[cfg(mirv_hooks)]
+pub use arithmetic::CurveEndo;
+
 #[cfg(test)]
 pub mod tests;
-- 
2.43.0


From e729c48debe6f36b66d4c95d41ce0273de5dc706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 06/14] fix: compressed decoding accepts points with x = 0

---
 src/serde.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 1377993..ad4e6bc 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -349,9 +349,9 @@ where
                     // * sign must not be set
 
                     // identity flag not set:
-                    // * x must not be zero
+                    // * any x that `resolve` finds a point for
 
-                    let is_valid = (is_identity & is_zero & !sign) ^ (!is_identity & !is_zero);
+                    let is_valid = (is_identity & is_zero & !sign) | !is_identity;
 
                     (is_valid, is_identity)
                 }
-- 
2.43.0


From ede8dd18a8fc71ea31d9b3e4e83986115846c3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 07/14] fix: sign of quadratic extension elements falls back to
 c1 when c0 is zero

---
 src/derive/curve.rs       | 4 ++--
 src/derive/field/tower.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index 84f4c56..ca6efe7 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -69,11 +69,11 @@ macro_rules! new_curve_impl {
             impl $crate::serde::Compressed<$name_affine> for [<$name:upper Compressed >] {
                 const CONFIG: $crate::serde::CompressedFlagConfig = $flag_config;
                 fn sign(c: &$name_affine) -> subtle::Choice {
-                    Choice::from(c.y.to_repr()[0] as u8 & 1) & !c.is_identity()
+                    c.y.is_odd() & !c.is_identity()
                 }
                 fn resolve(x: $base, sign_set: Choice) -> CtOption<$name_affine> {
                     $name_affine::y2(x).sqrt().map(|y| {
-                        let y = $base::conditional_select(&y, &-y, sign_set ^ Choice::from(y.to_repr()[0] as u8 & 1));
+                        let y = $base::conditional_select(&y, &-y, sign_set ^ y.is_odd());
                         $name_affine { x, y }
                     })
                 }
diff --git a/src/derive/field/tower.rs b/src/derive/field/tower.rs
index de55de5..c2ed4b6 100644
--- a/src/derive/field/tower.rs
+++ b/src/derive/field/tower.rs
@@ -139,7 +139,7 @@ macro_rules! impl_tower2 {
             }
 
             fn is_odd(&self) -> Choice {
-                Choice::from(self.to_repr().as_ref()[0] & 1)
+                self.c0.is_odd() | (self.c0.is_zero() & self.c1.is_odd())
             }
         }
 
-- 
2.43.0


From d3c47a549006c76baf69715ce5b48c4c1dfc90bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 08/14] fix: projective is_on_curve rejects z = 0 with nonzero
 x

---
 src/derive/curve.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index ca6efe7..a0023ac 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -433,7 +433,7 @@ macro_rules! new_curve_impl {
 
                     (self.z * self.y.square() - self.x.square() * self.x)
                         .ct_eq(&(self.z.square() * self.z * $constant_b))
-                        | self.z.is_zero()
+                        & !(self.y.is_zero() & self.z.is_zero())
                 } else {
                     // Check (Y/Z)^2 = (X/Z)^3 + a(X/Z) + b
                     // <=>    Z Y^2 - X^3 - a(X Z^2) = Z^3 b
@@ -441,7 +441,7 @@ macro_rules! new_curve_impl {
                     let z2 = self.z.square();
                     (self.z * self.y.square() - (self.x.square() + $constant_a * z2) * self.x)
                         .ct_eq(&(z2 * self.z * $constant_b))
-                        | self.z.is_zero()
+                        & !(self.y.is_zero() & self.z.is_zero())
                 }
             }
 
-- 
2.43.0


From a89ee7d141862c3a1207979dbfe3c3c95ab0ef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 09/14] fix: read_raw of points checks the curve equation like
 from_raw_bytes

---
 src/derive/curve.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index a0023ac..40fc6fd 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -645,7 +645,14 @@ macro_rules! new_curve_impl {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
                 let z = $base::read_raw(reader)?;
-                Ok(Self { x, y, z })
+                let res = Self { x, y, z };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve()).then(|| res).ok_or_else(|| {
+                    std::io::Error::new(
+                        std::io::ErrorKind::InvalidData,
+                        "point is not on the curve",
+                    )
+                })
             }
             fn write_raw<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()> {
                 self.x.write_raw(writer)?;
@@ -745,7 +752,14 @@ macro_rules! new_curve_impl {
             fn read_raw<R: std::io::Read>(reader: &mut R) -> std::io::Result<Self> {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
-                Ok(Self { x, y })
+                let res = Self { x, y };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve()).then(|| res).ok_or_else(|| {
+                    std::io::Error::new(
+                        std::io::ErrorKind::InvalidData,
+                        "point is not on the curve",
+                    )
+                })
             }
             fn write_raw<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()> {
                 self.x.write_raw(writer)?;
-- 
2.43.0


From 6b001bcd9a2db7d3c37b6f45a798e7df6f6ac61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 10/14] fix: into_subgroup returns self exactly for points of
 the prime-order subgroup

---
 src/bls12381/g1.rs      | 2 +-
 src/bls12381/g2.rs      | 2 +-
 src/bn256/curve.rs      | 2 +-
 src/pluto_eris/curve.rs | 3 +--
 4 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bls12381/g1.rs b/src/bls12381/g1.rs
index 451f1f0..7495269 100644
--- a/src/bls12381/g1.rs
+++ b/src/bls12381/g1.rs
@@ -51,7 +51,7 @@ impl group::cofactor::CofactorGroup for G1 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        CtOption::new(self, 1.into())
+        CtOption::new(self, self.is_torsion_free())
     }
 
     fn is_torsion_free(&self) -> Choice {
diff --git a/src/bls12381/g2.rs b/src/bls12381/g2.rs
index df77bb5..a5829a2 100644
--- a/src/bls12381/g2.rs
+++ b/src/bls12381/g2.rs
@@ -123,7 +123,7 @@ impl group::cofactor::CofactorGroup for G2 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        CtOption::new(self, 1.into())
+        CtOption::new(self, self.is_torsion_free())
     }
 
     /// Returns true if this point is free of an $h$-torsion component, and so it
diff --git a/src/bn256/curve.rs b/src/bn256/curve.rs
index dadf31d..ea3f8bb 100644
--- a/src/bn256/curve.rs
+++ b/src/bn256/curve.rs
@@ -226,7 +226,7 @@ impl CofactorGroup for G2 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        unimplemented!();
+        CtOption::new(self, self.is_torsion_free())
     }
 
     fn is_torsion_free(&self) -> Choice {
diff --git a/src/pluto_eris/curve.rs b/src/pluto_eris/curve.rs
index e0452a9..2156099 100644
--- a/src/pluto_eris/curve.rs
+++ b/src/pluto_eris/curve.rs
@@ -202,8 +202,7 @@ impl CofactorGroup for G2 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        // TODO: Handle the case where the point is already in the subgroup.
-        CtOption::new(self.clear_cofactor(), 1.into())
+        CtOption::new(self, self.is_torsion_free())
     }
 
     fn is_torsion_free(&self) -> Choice {
-- 
2.43.0


From 41dc051baaf0d36b20fd3a6da773a6ab5d4eeac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 11/14] fix: msm_best leaves out identity bases instead of
 batching them as (0, 0)

---
 src/msm.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/msm.rs b/src/msm.rs
index 615bcb5..f76a15a 100644
--- a/src/msm.rs
+++ b/src/msm.rs
@@ -149,6 +149,13 @@ struct Affine<C: CurveAffine> {
 
 impl<C: CurveAffine> Affine<C> {
     fn from(point: &C) -> Self {
+        // the identity has no affine coordinates, its placeholder is never scheduled
+        if bool::from(point.is_identity()) {
+            return Self {
+                x: C::Base::ZERO,
+                y: C::Base::ZERO,
+            };
+        }
         let coords = point.coordinates().unwrap();
 
         Self {
@@ -495,7 +502,8 @@ pub fn msm_best<C: CurveAffine>(coeffs: &[C::Scalar], bases: &[C]) -> C::Curve {
         for (base_idx, coeff) in coeffs.iter().enumerate() {
             let buck_idx = get_booth_index(w, c, coeff.as_ref());
 
-            if buck_idx != 0 {
+            // identity bases contribute nothing and have no affine coordinates to batch
+            if buck_idx != 0 && !bool::from(bases[base_idx].is_identity()) {
                 // parse bucket index
                 let sign = buck_idx.is_positive();
                 let buck_idx = buck_idx.unsigned_abs() as usize - 1;
-- 
2.43.0


From a0658c93545ce5c32891d5dbcf4da8e04601eab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 12/14] fix: msm_best doubles repeated bases with the curve
 coefficient a

---
 src/msm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msm.rs b/src/msm.rs
index f76a15a..9da6e95 100644
--- a/src/msm.rs
+++ b/src/msm.rs
@@ -91,7 +91,7 @@ fn batch_add<C: CurveAffine>(
                 // Doubling
                 let x_squared = bases[*base_idx].x.square();
                 *z = buckets[*buck_idx].y() + buckets[*buck_idx].y(); // 2y
-                *t = acc * (x_squared + x_squared + x_squared); // acc * 3x^2
+                *t = acc * (x_squared + x_squared + x_squared + C::a()); // acc * (3x^2 + a)
                 acc *= *z;
                 continue;
             }
-- 
2.43.0


From 9d9680cdec4bb347d03cabf2901e5ac5de173d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:48 +0000
Subject: [PATCH 13/14] hook: chosen field elements for hash_to_curve under
 cfg(mirv_hooks)

---
 src/hash_to_curve.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/hash_to_curve.rs b/src/hash_to_curve.rs
index e4c287c..bc8abf7 100644
--- a/src/hash_to_curve.rs
+++ b/src/hash_to_curve.rs
@@ -128,6 +128,11 @@ where
     }
 
     pub(crate) fn hash_to_field(&self, domain_prefix: &[u8], message: &[u8]) -> (C::Base, C::Base) {
+        #[cfg(mirv_hooks)]
+        if let Some(elements) = mirv_hooks::field_elements() {
+            return elements;
+        }
+
         let out = expand_message::<D>(domain_prefix, &self.domain[..], message, L * 2);
 
         let u0 = {
@@ -153,6 +158,25 @@ where
     }
 }
 
+/// Verification hook: replaces the output of `hash_to_field` on the current thread, so that the map
+/// to the curve can be exercised on chosen field elements.
+#[cfg(mirv_hooks)]
+pub mod mirv_hooks {
+    use std::{any::Any, cell::RefCell};
+
+    thread_local! {
+        static ELEMENTS: RefCell<Option<Box<dyn Any>>> = const { RefCell::new(None) };
+    }
+
+    pub fn set_field_elements<F: 'static>(elements: Option<(F, F)>) {
+        ELEMENTS.with(|e| *e.borrow_mut() = elements.map(|x| Box::new(x) as Box<dyn Any>));
+    }
+
+    pub(super) fn field_elements<F: Copy + 'static>() -> Option<(F, F)> {
+        ELEMENTS.with(|e| e.borrow().as_ref().and_then(|x| x.downcast_ref().copied()))
+    }
+}
+
 pub(crate) fn svdw_precomputed_constants<C: CurveExt>(z: C::Base) -> [C::Base; 4] {
     let a = C::a();
     let b = C::b();
-- 
2.43.0


From ce9dcb1cadec0982b7ff4a9e24952806aa2754e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 14/14] fix: bls12-381 G1 isogeny map returned (0, 0, 0) on the
 kernel instead of the identity

---
 src/bls12381/g1.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bls12381/g1.rs b/src/bls12381/g1.rs
index 7495269..b2408c3 100644
--- a/src/bls12381/g1.rs
+++ b/src/bls12381/g1.rs
@@ -155,11 +155,14 @@ fn iso_map(x: Fq, y: Fq, z: Fq) -> G1 {
     mapvals[2] *= y;
     mapvals[3] *= z;
 
-    G1 {
+    let point = G1 {
         x: mapvals[0] * mapvals[3], // xnum * yden,
         y: mapvals[2] * mapvals[1], // ynum * xden,
         z: mapvals[1] * mapvals[3], // xden * yden
-    }
+    };
+
+    // the denominators vanish on the kernel of the isogeny, which maps to the identity
+    G1::conditional_select(&point, &G1::identity(), point.z.is_zero())
 }
 
 #[allow(clippy::type_complexity)]
-- 
2.43.0

