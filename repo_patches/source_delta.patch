From bbdfbe197f4bfb85a2f74162b9677ee5b225722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 01/22] hook: re-exports and render-step entry points for
 verification, only with --cfg pt_verif

---
 src/film.rs       | 15 +++++++++++++++
 src/integrator.rs | 24 ++++++++++++++++++++++++
 src/lib.rs        | 45 +++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 84 insertions(+)

diff --git a/src/film.rs b/src/film.rs
index c967f36..ab7796e 100644
--- a/src/film.rs
+++ b/src/film.rs
@@ -225,6 +225,21 @@ fn gamma_correct(v: f32) -> f32 {
     }
 }
 
+/// Verification hook: accumulated (color, filter weight sum) of every pixel, only with `--cfg pt_verif`.
+#[cfg(pt_verif)]
+impl Film {
+    pub fn verif_pixels(&self) -> Vec<(Spectrum, f32)> {
+        self.pixels.lock().unwrap().iter().map(|p| (p.color, p.filter_weight_sum)).collect()
+    }
+}
+
+#[cfg(pt_verif)]
+impl FilmTile {
+    pub fn verif_bbox(&self) -> BBox2i {
+        self.bbox
+    }
+}
+
 #[cfg(test)]
 mod test {
     use bbox::BBox2;
diff --git a/src/integrator.rs b/src/integrator.rs
index 2f97e55..a982ebc 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -229,3 +229,27 @@ impl<Co, Cam> IntegratorLocal<Co, Cam> where Co: 'static + Container, Cam: 'stat
         return l;
     }
 }
+
+/// Verification hook: the per-thread steps of rendering, only with `--cfg pt_verif`.
+#[cfg(pt_verif)]
+impl<Co, Cam, S> Integrator<Co, Cam, S> where Co: 'static + Container, Cam: 'static + Camera, S: 'static + Sampler {
+    fn verif_local(&self) -> IntegratorLocal<Co, Cam> {
+        IntegratorLocal { scene: self.scene.clone(), camera: self.camera.clone(), film: self.film.clone() }
+    }
+
+    pub fn verif_li<T>(&self, sampler: &mut T, ray: Ray) -> Spectrum where T: Sampler {
+        self.verif_local().li(sampler, ray)
+    }
+
+    pub fn verif_estimate_direct<T>(&self, sampler: &mut T, light: &Light, i: &Interaction, bsdf: &BSDF) -> Spectrum where T: Sampler {
+        self.verif_local().estimate_direct(sampler, light, i, bsdf)
+    }
+
+    pub fn verif_render_tile<T>(&self, sampler: &mut T, tile_bbox: BBox2i) where T: Sampler {
+        self.verif_local().render(sampler, tile_bbox)
+    }
+
+    pub fn verif_film(&self) -> &Film {
+        &self.film
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 54aad5e..7c52cc6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -40,3 +40,48 @@
 #[allow(dead_code, unused_variables)] mod transform;
 #[allow(dead_code, unused_variables)] mod vector;
 pub mod api;
+
+/// Verification hook: re-exports of the private modules, only with `--cfg pt_verif`.
+#[cfg(pt_verif)]
+pub mod verif {
+    pub mod axis { #[allow(unused_imports)] pub use ::axis::*; }
+    pub mod bbox { #[allow(unused_imports)] pub use ::bbox::*; }
+    pub mod bxdf_lambertian_reflection { #[allow(unused_imports)] pub use ::bxdf_lambertian_reflection::*; }
+    pub mod bxdf_microfacet_reflection { #[allow(unused_imports)] pub use ::bxdf_microfacet_reflection::*; }
+    pub mod bxdf_microfacet_transmission { #[allow(unused_imports)] pub use ::bxdf_microfacet_transmission::*; }
+    pub mod bxdf_specular_reflection { #[allow(unused_imports)] pub use ::bxdf_specular_reflection::*; }
+    pub mod bxdf_specular_transmission { #[allow(unused_imports)] pub use ::bxdf_specular_transmission::*; }
+    pub mod camera { #[allow(unused_imports)] pub use ::camera::*; }
+    pub mod common { #[allow(unused_imports)] pub use ::common::*; }
+    pub mod container { #[allow(unused_imports)] pub use ::container::*; }
+    pub mod container_kdtree { #[allow(unused_imports)] pub use ::container_kdtree::*; }
+    pub mod container_simple { #[allow(unused_imports)] pub use ::container_simple::*; }
+    pub mod film { #[allow(unused_imports)] pub use ::film::*; }
+    pub mod filter { #[allow(unused_imports)] pub use ::filter::*; }
+    pub mod fresnel { #[allow(unused_imports)] pub use ::fresnel::*; }
+    pub mod integrator { #[allow(unused_imports)] pub use ::integrator::*; }
+    pub mod interaction { #[allow(unused_imports)] pub use ::interaction::*; }
+    pub mod light { #[allow(unused_imports)] pub use ::light::*; }
+    pub mod material { #[allow(unused_imports)] pub use ::material::*; }
+    pub mod material_glass { #[allow(unused_imports)] pub use ::material_glass::*; }
+    pub mod material_lambertian_reflection { #[allow(unused_imports)] pub use ::material_lambertian_reflection::*; }
+    pub mod material_metal { #[allow(unused_imports)] pub use ::material_metal::*; }
+    pub mod material_mirror { #[allow(unused_imports)] pub use ::material_mirror::*; }
+    pub mod material_plastic { #[allow(unused_imports)] pub use ::material_plastic::*; }
+    pub mod matrix { #[allow(unused_imports)] pub use ::matrix::*; }
+    pub mod microfacet { #[allow(unused_imports)] pub use ::microfacet::*; }
+    pub mod ray { #[allow(unused_imports)] pub use ::ray::*; }
+    pub mod reflection { #[allow(unused_imports)] pub use ::reflection::*; }
+    pub mod sampler { #[allow(unused_imports)] pub use ::sampler::*; }
+    pub mod sampler_halton { #[allow(unused_imports)] pub use ::sampler_halton::*; }
+    pub mod sampler_random { #[allow(unused_imports)] pub use ::sampler_random::*; }
+    pub mod sampling { #[allow(unused_imports)] pub use ::sampling::*; }
+    pub mod scene { #[allow(unused_imports)] pub use ::scene::*; }
+    pub mod shape { #[allow(unused_imports)] pub use ::shape::*; }
+    pub mod shape_sphere { #[allow(unused_imports)] pub use ::shape_sphere::*; }
+    pub mod shape_triangle { #[allow(unused_imports)] pub use ::shape_triangle::*; }
+    pub mod spectrum { #[allow(unused_imports)] pub use ::spectrum::*; }
+    pub mod texture { #[allow(unused_imports)] pub use ::texture::*; }
+    pub mod transform { #[allow(unused_imports)] pub use ::transform::*; }
+    pub mod vector { #[allow(unused_imports)] pub use ::vector::*; }
+}
-- 
2.43.0


From 6cf8057c5391cc827f91b0d527c79ed94a2bd0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 02/22] fix: rays with a -0. direction component lying in a box
 face miss the box

---
 src/bbox.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bbox.rs b/src/bbox.rs
index 6874096..8e9c5ee 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -87,9 +87,11 @@ impl BBox3f {
 
         let mut axis = Axis::X;
         for _ in 0..3 {
+            // -0. + 0. is 0., -0. would swap the two infinities and drop rays lying in a face
+            let direction = ray.direction[axis] + 0.;
             // t_near and t_far could be NaN or Infinity
-            let mut t_near = (self.min[axis] - ray.origin[axis]) / ray.direction[axis];
-            let mut t_far  = (self.max[axis] - ray.origin[axis]) / ray.direction[axis];
+            let mut t_near = (self.min[axis] - ray.origin[axis]) / direction;
+            let mut t_far  = (self.max[axis] - ray.origin[axis]) / direction;
             if t_near > t_far {
                 swap(&mut t_near, &mut t_far);
             }
-- 
2.43.0


From 82b83ce785d396f908bbcc5c9607baf726d5f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 03/22] fix: partial derivatives at the poles of a sphere are
 NaN

---
 src/shape_sphere.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/shape_sphere.rs b/src/shape_sphere.rs
index 417b457..b2c97c1 100644
--- a/src/shape_sphere.rs
+++ b/src/shape_sphere.rs
@@ -62,6 +62,12 @@ impl Sphere {
             0.,
         );
         let r_sin_theta = (x * x + y * y).sqrt(); // r * sin(theta) = (r^2 - z^2)^0.5 or (x^2 + y^2)^0.5
+        if r_sin_theta == 0. { // pole, take the directions for phi = 0
+            return (
+                Vector3f::new(0., 2. * PI * z.abs(), 0.),
+                Vector3f::new(PI * z, 0., 0.),
+            );
+        }
         let dpdv = Vector3f::new(
             PI * z * x/r_sin_theta,
             PI * z * y/r_sin_theta,
-- 
2.43.0


From 940ef43bd33ea9cfb3133d7006f17f8c256cfdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 04/22] fix: transforming a bounding box by a rotation loses
 part of the box

---
 src/transform.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 1be8cf1..5448a2a 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -231,10 +231,16 @@ impl Transformable for Point3f {
 
 impl Transformable for BBox3f {
     fn _transform(&self, m: &Matrix, m_inv: &Matrix) -> BBox3f {
-        BBox3f::new(
-            self.min._transform(m, m_inv),
-            self.max._transform(m, m_inv),
-        )
+        // a rotated box is spanned by any of its corners, not only by the transformed min and max
+        let (a, b) = (self.min, self.max);
+        let mut bbox = BBox3f::new(a._transform(m, m_inv), b._transform(m, m_inv));
+        for p in [
+            Point3f::new(b.x, a.y, a.z), Point3f::new(a.x, b.y, a.z), Point3f::new(a.x, a.y, b.z),
+            Point3f::new(b.x, b.y, a.z), Point3f::new(b.x, a.y, b.z), Point3f::new(a.x, b.y, b.z),
+        ].iter() {
+            bbox = bbox.union_point(p._transform(m, m_inv));
+        }
+        return bbox;
     }
 }
 
-- 
2.43.0


From 92b6a3e9180a8de0d770a2aa4c3880644b30f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:02 +0000
Subject: [PATCH 05/22] fix: vertex normals that interpolate to zero give a NaN
 shading normal

---
 src/shape_triangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shape_triangle.rs b/src/shape_triangle.rs
index ada87d5..b4cf146 100644
--- a/src/shape_triangle.rs
+++ b/src/shape_triangle.rs
@@ -238,7 +238,7 @@ impl Shape for Triangle {
                + vertex_normals[1] * b1
                + vertex_normals[2] * b2;
             let len = sn.length();
-            if len >= 0. {
+            if len > 0. {
                 sn /= len;
             } else {
                 sn = n;
-- 
2.43.0


From 659f3cd5e067f6100307f88069c47c5176650afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:12 +0000
Subject: [PATCH 06/22] fix: the container of an empty list of shapes panics

---
 src/bbox.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bbox.rs b/src/bbox.rs
index 8e9c5ee..75f1bf3 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -23,6 +23,9 @@ impl BBox3f {
     }
 
     pub fn bbox_of_shapes(shapes: &[Arc<Shape>]) -> BBox3f {
+        if shapes.is_empty() {
+            return BBox3f::new(Point3f::default(), Point3f::default());
+        }
         shapes[1..].iter().fold(shapes[0].bbox(), |bbox, s| bbox.union(&s.bbox()))
     }
 
-- 
2.43.0


From 9666d05a880435f13593a32920bbf1b72793b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 07/22] fix: image values are rounded twice, black becomes 1

---
 src/film.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/film.rs b/src/film.rs
index ab7796e..ebe1a67 100644
--- a/src/film.rs
+++ b/src/film.rs
@@ -93,7 +93,7 @@ impl Film {
         for p in pixels.iter() {
             let mut color = p.color;
             for i in 0..3 {
-                color[i] = clamp(gamma_correct(color[i] / p.filter_weight_sum) * 255. + 0.5, 0., 255.).round();
+                color[i] = clamp(gamma_correct(color[i] / p.filter_weight_sum) * 255., 0., 255.).round();
             }
             let Spectrum { r, g, b } = color;
             file.write_all(format!(
-- 
2.43.0


From 73de56b0829189843cc0c00c97706c785d439e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 08/22] fix: rendering into a longer existing image file leaves
 its tail behind

---
 src/integrator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/integrator.rs b/src/integrator.rs
index a982ebc..492726c 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -75,6 +75,7 @@ impl<Co, Cam, S> Integrator<Co, Cam, S> where Co: 'static + Container, Cam: 'sta
             OpenOptions::new()
                 .write(true)
                 .create(true)
+                .truncate(true)
                 .open("output.ppm")
                 .unwrap()
         );
-- 
2.43.0


From c7d54340195e8d9f1b75c6dd23b9d37cc312e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 09/22] hook: index and values of the Halton sampler, only with
 --cfg pt_verif

---
 src/sampler_halton.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sampler_halton.rs b/src/sampler_halton.rs
index 96557bf..4047984 100644
--- a/src/sampler_halton.rs
+++ b/src/sampler_halton.rs
@@ -1219,6 +1219,18 @@ fn pos_mod(a: i32, b: i32) -> u32 {
     }
 }
 
+/// Verification hook: the index of the current sample and single values, only with `--cfg pt_verif`.
+#[cfg(pt_verif)]
+impl HaltonSampler {
+    pub fn verif_index(&self) -> u32 {
+        self.interval_sample_index
+    }
+
+    pub fn verif_radical_inverse(base_index: u32, a: u32) -> f32 {
+        radical_inverse_prime(base_index, a)
+    }
+}
+
 #[cfg(test)]
 mod test {
     #[test]
-- 
2.43.0


From f3e7daf862ecdda92c85d6e2fa51e1f1522f651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 10/22] fix: radical inverses of large indices overflow 32 bits

---
 src/sampler_halton.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sampler_halton.rs b/src/sampler_halton.rs
index 4047984..f745f20 100644
--- a/src/sampler_halton.rs
+++ b/src/sampler_halton.rs
@@ -141,9 +141,11 @@ impl Sampler for HaltonSampler {
     }
 }
 
-fn radical_inverse(base: u32, mut a: u32) -> f32 {
-    let mut x = 0;
-    let mut base_n = 1;
+fn radical_inverse(base: u32, a: u32) -> f32 {
+    // x and base_n may exceed 32 bits: base_n is up to a * base
+    let (base, mut a) = (base as u64, a as u64);
+    let mut x: u64 = 0;
+    let mut base_n: u64 = 1;
     while a > 0 {
         x = x * base + a % base;
         a /= base;
-- 
2.43.0


From 4bc1c20b873a86c5ccfdcc3df667477586164d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 11/22] fix: negative Bezout coefficients give wrong inverses,
 samples of a pixel lie elsewhere

---
 src/sampler_halton.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sampler_halton.rs b/src/sampler_halton.rs
index f745f20..4d6bb83 100644
--- a/src/sampler_halton.rs
+++ b/src/sampler_halton.rs
@@ -1196,7 +1196,8 @@ fn inverse_radical_inverse(base: u32, mut a: u32, n_digits: u32) -> u32 {
 
 fn multiplicative_inverse(a: u32, n: u32) -> u32 {
     let (x, _) = extended_gcd(a, n);
-    return x.abs() as u32 % n;
+    let (x, n) = (x % n as i64, n as i64);
+    return (if x < 0 { x + n } else { x }) as u32;
 }
 
 // Extended Euclidean algorithm
-- 
2.43.0


From 9a2f5b85f2272df512acdff992fe07a8f68d6bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 12/22] fix: microfacet normal density is D times the cosine,
 not D over it

---
 src/microfacet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microfacet.rs b/src/microfacet.rs
index 2c4573e..fa632a3 100644
--- a/src/microfacet.rs
+++ b/src/microfacet.rs
@@ -76,6 +76,6 @@ impl MicrofacetDistribution {
     }
 
     pub fn pdf(&self, wo: Vector3f, wh: Vector3f) -> f32 {
-        self.d(wh) / abs_cos_theta(wh)
+        self.d(wh) * abs_cos_theta(wh)
     }
 }
-- 
2.43.0


From d7eea7d99e6ae69949a4cee90125f0c7d098d4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 13/22] fix: a sampled BSDF value of a single lobe follows the
 geometric normal like BSDF::f

---
 src/reflection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflection.rs b/src/reflection.rs
index e01137b..f14ccd4 100644
--- a/src/reflection.rs
+++ b/src/reflection.rs
@@ -119,7 +119,7 @@ impl BSDF {
         }
         let wi_w = self.local_to_world(wi);
 
-        if !bxdf.has_flag(SPECULAR) && n_bxdfs > 1 {
+        if !bxdf.has_flag(SPECULAR) {
             for i in 0..n_bxdfs {
                 if i != n_bxdf {
                     pdf += self.bxdfs[i].pdf(wo, wi);
-- 
2.43.0


From 083ef541f45192142a88a866d9bf4703e79442d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 14/22] fix: microfacet transmission does not sample through
 microfacets seen from behind

---
 src/bxdf_microfacet_transmission.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bxdf_microfacet_transmission.rs b/src/bxdf_microfacet_transmission.rs
index 3bc83b7..0814144 100644
--- a/src/bxdf_microfacet_transmission.rs
+++ b/src/bxdf_microfacet_transmission.rs
@@ -64,6 +64,9 @@ impl BxDF for MicrofacetTransmissionBTDF {
         }
 
         let wh = self.distribution.sample_wh(wo, sample);
+        if wo.dot(wh) < 0. { // the microfacet is seen from behind
+            return Default::default();
+        }
         let eta = if cos_theta(wo) > 0. {
             self.eta_a / self.eta_b
         } else {
-- 
2.43.0


From c4742fdc7aa17fd6f652c2a9242bf192c1ac1579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 15/22] fix: microfacet reflection uses the Fresnel reflectance
 of the side the light comes from

---
 src/bxdf_microfacet_reflection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bxdf_microfacet_reflection.rs b/src/bxdf_microfacet_reflection.rs
index ceefc3e..d6223e8 100644
--- a/src/bxdf_microfacet_reflection.rs
+++ b/src/bxdf_microfacet_reflection.rs
@@ -38,7 +38,8 @@ impl<T> BxDF for MicrofacetReflectionBRDF<T> where T: Fresnel {
 
         let d = self.distribution.d(wh);
         let g = self.distribution.g(wo, wi);
-        let f = self.fresnel.evaluate(wh.dot(wi));
+        // the reflectance is that of the side wi lies on
+        let f = self.fresnel.evaluate(if wh.z < 0. { -wh.dot(wi) } else { wh.dot(wi) });
         return self.r * d * g * f
             / (4. * cos_theta_o * cos_theta_i);
     }
-- 
2.43.0


From b4534359d15f20f840b6bbc052c541acb4222fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 16/22] fix: checkerboard textures do not overflow for huge
 coordinates

---
 src/texture.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/texture.rs b/src/texture.rs
index 55b0271..bc96b0a 100644
--- a/src/texture.rs
+++ b/src/texture.rs
@@ -57,7 +57,7 @@ impl<T> Texture for CheckerboardTexture<T> where T: Copy + Sync + Send {
     type Output = T;
     fn evaluate(&self, i: &Interaction) -> T {
         let st = self.mapping.map(i);
-        if (st.x.floor() as i64 + st.y.floor() as i64) % 2 == 0 {
+        if (st.x.floor() as i64).wrapping_add(st.y.floor() as i64) % 2 == 0 {
             return self.tex1;
         } else {
             return self.tex2;
@@ -85,7 +85,7 @@ impl<T> Texture for Checkerboard3DTexture<T> where T: Copy + Sync + Send {
     type Output = T;
     fn evaluate(&self, i: &Interaction) -> T {
         let p = self.mapping.map(i);
-        if (p.x.floor() as i64 + p.y.floor() as i64 + p.z.floor() as i64) % 2 == 0 {
+        if (p.x.floor() as i64).wrapping_add(p.y.floor() as i64).wrapping_add(p.z.floor() as i64) % 2 == 0 {
             return self.tex1;
         } else {
             return self.tex2;
-- 
2.43.0


From f22fa11f5c65f1b9d4e9449759adf195a1f86b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 17/22] fix: a microfacet distribution that is smooth along one
 direction has no NaN values

---
 src/microfacet.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/microfacet.rs b/src/microfacet.rs
index fa632a3..1b81c17 100644
--- a/src/microfacet.rs
+++ b/src/microfacet.rs
@@ -11,7 +11,8 @@ pub struct MicrofacetDistribution {
 
 impl MicrofacetDistribution {
     pub fn new(alpha_x: f32, alpha_y: f32) -> MicrofacetDistribution {
-        MicrofacetDistribution { alpha_x, alpha_y }
+        // a roughness of zero along one direction would divide by zero
+        MicrofacetDistribution { alpha_x: alpha_x.max(0.001), alpha_y: alpha_y.max(0.001) }
     }
 
     pub fn d(&self, wh: Vector3f) -> f32 {
-- 
2.43.0


From 6bcdc8746fe933b4182be5d9bd3198cdf187489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 18/22] fix: direct lighting leaves specular lobes to the next
 bounce

---
 src/integrator.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/integrator.rs b/src/integrator.rs
index 492726c..bb93c17 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -147,16 +147,14 @@ impl<Co, Cam> IntegratorLocal<Co, Cam> where Co: 'static + Container, Cam: 'stat
         if !light.is_delta() {
             let (wi, mut f, scattering_pdf, bxdf_flag) = bsdf.sample_f(i.wo, sample1);
             f *= wi.dot_n(i.sn).abs();
+            // emission seen by a specular bounce is added by li()
             let sampled_specular = bxdf_flag & SPECULAR != 0;
-            if scattering_pdf > 0. && !f.is_black() {
-                let mut weight = 1.;
-                if !sampled_specular {
-                    let light_pdf = light.pdf_li(i, wi);
-                    if light_pdf == 0. {
-                        return ld;
-                    }
-                    weight = power_heuristic(1, scattering_pdf, 1, light_pdf);
+            if scattering_pdf > 0. && !sampled_specular && !f.is_black() {
+                let light_pdf = light.pdf_li(i, wi);
+                if light_pdf == 0. {
+                    return ld;
                 }
+                let weight = power_heuristic(1, scattering_pdf, 1, light_pdf);
 
                 let ray = i.spawn_ray(wi);
                 let light_i = self.scene.intersect(&ray);
-- 
2.43.0


From bc2fdd2cb64b85d60c797e203a401040e6d00342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 19/22] fix: a path whose survival probability is zero always
 ends

---
 src/integrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrator.rs b/src/integrator.rs
index bb93c17..68476bd 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -219,7 +219,7 @@ impl<Co, Cam> IntegratorLocal<Co, Cam> where Co: 'static + Container, Cam: 'stat
             bounces += 1;
             if bounces > 3 {
                 let q = beta.y().min(0.95);
-                if sampler.get_1d() > q {
+                if sampler.get_1d() >= q {
                     break;
                 }
                 beta /= q;
-- 
2.43.0


From 00e3179536a75bd51e35a0dbfd472ea13d65d038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 20/22] fix: a light sampled on a triangle with vertex normals
 emits from the side intersect() reports

---
 src/shape_triangle.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/shape_triangle.rs b/src/shape_triangle.rs
index b4cf146..b041332 100644
--- a/src/shape_triangle.rs
+++ b/src/shape_triangle.rs
@@ -304,8 +304,21 @@ impl Shape for Triangle {
                       + (vs_o[2] * b2).abs();
         let p_err = Vector3f::from(p_abs_sum) * gamma(7.);
 
+        // same orientation as in intersect()
         let mut n = Normal3f::from((vs_o[1] - vs_o[0]).cross(vs_o[2] - vs_o[0]).normalize());
+        let mut sn = n;
+        if let Some(vertex_normals) = self.vertex_normals {
+            let vn = vertex_normals[0] * b0
+                   + vertex_normals[1] * b1
+                   + vertex_normals[2] * b2;
+            if vn.length() > 0. {
+                sn = vn;
+            }
+        }
         if self.reverse_orientation {
+            sn *= -1.;
+        }
+        if n.dot(sn) < 0. {
             n *= -1.;
         }
 
-- 
2.43.0


From c28b9f9c2cc0ab8c1b8bab39c21361ec20d264cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:10 +0000
Subject: [PATCH 21/22] fix: Shape::pdf is a density per solid angle

---
 src/shape.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index ce32b2a..d20e508 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -32,8 +32,16 @@ pub trait Shape : Sync + Send {
         self.sample(sample)
     }
 
+    /// pdf returns the density, per solid angle at ref_i, of direction wi towards a point taken by sample_ref.
     fn pdf(&self, ref_i: &Interaction, wi: Vector3f) -> f32 {
-        1. / self.area()
+        if let Some((i, _)) = self.intersect(&ref_i.spawn_ray(wi)) {
+            let d = i.p - ref_i.p;
+            let cos = wi.dot_n(i.n).abs();
+            if cos > 0. {
+                return d.dot(d) / (cos * self.area());
+            }
+        }
+        return 0.;
     }
 
     fn l(&self, i: &Interaction, w: Vector3f) -> Spectrum {
-- 
2.43.0


From a6418164272ac008489db476d1191bbad6d4ee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:10 +0000
Subject: [PATCH 22/22] fix: spheres can be sampled as area lights

---
 src/shape_sphere.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/shape_sphere.rs b/src/shape_sphere.rs
index b2c97c1..99e2cd9 100644
--- a/src/shape_sphere.rs
+++ b/src/shape_sphere.rs
@@ -149,7 +149,20 @@ impl Shape for Sphere {
     }
 
     fn sample(&self, sample: Point2f) -> Interaction {
-        unimplemented!()
+        let z = 1. - 2. * sample.x;
+        let r = (1. - z * z).max(0.).sqrt();
+        let phi = 2. * PI * sample.y;
+        let n = Vector3f::new(r * phi.cos(), r * phi.sin(), z);
+
+        let p = Point3f::default() + n * self.radius;
+        let p_err = Vector3f::from(p).abs() * gamma(5.);
+
+        return Interaction {
+            p: self.local_to_world(p),
+            p_err,
+            n: Normal3f::from(n),
+            ..Default::default()
+        };
     }
 }
 
-- 
2.43.0

