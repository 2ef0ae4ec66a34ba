From 0fbf5e78e371be71e9e08dcb791808dabfb73e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:22 +0000
Subject: [PATCH 01/37] fix: mrcal_compose_rt_full(): compute dt_t0 when
 dt_t1==NULL

With inverted0 && !inverted1 the dt_t0 gradient is computed from dt_t1. Each
gradient is documented as "may be NULL" independently, but asking for dt_t0
without dt_t1 dereferenced NULL
---
 poseutils.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/poseutils.c b/poseutils.c
index 6c8f5b8..55b12b8 100644
--- a/poseutils.c
+++ b/poseutils.c
@@ -861,6 +861,17 @@ void mrcal_compose_rt_full( // output
         double t10[3] = { rt1[0+3] - rt0[0+3],
                           rt1[1+3] - rt0[1+3],
                           rt1[2+3] - rt0[2+3] };
+
+        // dt_t0 is computed from dt_t1 below. So if the caller wants dt_t0 but
+        // not dt_t1, I need somewhere to put dt_t1
+        double dt_t1_local[3*3];
+        if(dt_t0 != NULL && dt_t1 == NULL)
+        {
+            dt_t1         = dt_t1_local;
+            dt_t1_stride0 = 3*sizeof(dt_t1_local[0]);
+            dt_t1_stride1 =   sizeof(dt_t1_local[0]);
+        }
+
         mrcal_rotate_point_r_full( &P1(rt_out,3), rt_out_stride0,
                                    dt_r0, dt_r0_stride0, dt_r0_stride1,
                                    dt_t1, dt_t1_stride0, dt_t1_stride1,
-- 
2.43.0


From c2f808e5171b739aec6247e840398613814d44ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:12 +0000
Subject: [PATCH 02/37] fix: compose_r(): tiny-rotation linearization was used
 with the other rotation near a full turn

If one rotation is tiny (<1e-8) but nonzero and the other one is a full
turn (|r| ~ 2pi), the B/tan(B) term in the linearization diverges, and the
returned rotation was wrong by O(1). The linearization is now used only
where it is valid: if the tiny rotation is small compared to the distance
of the other rotation to a full turn
---
 poseutils-uses-autodiff.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/poseutils-uses-autodiff.cc b/poseutils-uses-autodiff.cc
index 0669d8b..66ab95a 100644
--- a/poseutils-uses-autodiff.cc
+++ b/poseutils-uses-autodiff.cc
@@ -452,7 +452,11 @@ compose_r_core(// output
     // Here I special-case A and B near 0. I do this so avoid dividing by 0 in
     // the /A and /B expressions. There are no /sin(A) and /sin(B) expressions,
     // so I don't need to think about A ~ k pi
-    if(A.x < eps/2.)
+    //
+    // The linearizations below need the tiny rotation to be small compared to
+    // the distance of the OTHER rotation to a full turn (B ~ k pi, k>0), where
+    // B/tan(B) diverges. If that isn't true, I take the normal path
+    if(A.x < eps/2. && (B.x < eps || A.x <= eps*fabs(sin(B.x))))
     {
         // A ~ 0. I simplify
         //
@@ -574,7 +578,7 @@ compose_r_core(// output
                 + cross[i] / 2.;
         return;
     }
-    else if(B.x < eps)
+    else if(B.x < eps && B.x <= eps*fabs(sin(A.x)))
     {
         // B ~ 0. I simplify
         //
-- 
2.43.0


From 436ee1c75f8b1c136308f2624ec77146661971f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 03/37] fix: mrcal_project_pinhole(): write each of the N
 projected points

All N results were written to q[0]; q[1..N-1] were never set
---
 mrcal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 4450142..3ce40fa 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -1455,8 +1455,8 @@ void mrcal_project_pinhole( // output
     for(int i=0; i<N; i++)
     {
         double pz_recip = 1. / v[i].z;
-        q->x = v[i].x*pz_recip * fx + cx;
-        q->y = v[i].y*pz_recip * fy + cy;
+        q[i].x = v[i].x*pz_recip * fx + cx;
+        q[i].y = v[i].y*pz_recip * fy + cy;
 
         if(dq_dv)
         {
-- 
2.43.0


From 9ff92e714368f7810fcaa85b70f75675485a992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 04/37] fix: _mrcal_project_internal(): advance dq_dp for each
 point when no intrinsics gradients are requested

With dq_dintrinsics==NULL and N>1, the gradients of all the points were written
into the first point's block, leaving the others uninitialized
---
 mrcal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mrcal.c b/mrcal.c
index 3ce40fa..047bfe8 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -2903,6 +2903,10 @@ bool _mrcal_project_internal( // out
                      intrinsics, NULL, &frame, NULL, true,
                      lensmodel, precomputed,
                      0.0, 0,0);
+
+            // advance
+            if(dq_dp != NULL)
+                dq_dp = &dq_dp[2];
         }
         return true;
     }
-- 
2.43.0


From 0fd10b29cfbb63ba4bce6a22a1090aa20e11d4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 05/37] fix: project_cahvore_internals(): keep the r0 term in
 the gradient near the optical axis

---
 cahvore.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cahvore.cc b/cahvore.cc
index 686d056..5877ee5 100644
--- a/cahvore.cc
+++ b/cahvore.cc
@@ -144,7 +144,11 @@ bool _project_cahvore_internals( // outputs
         *pdistorted = uu + vv;
     }
     else
-        *pdistorted = p;
+    {
+        // The limit as theta -> 0: zetap -> zeta and mu -> r0. Using p directly
+        // would give a usable value, but would lose the r0 term in the gradient
+        *pdistorted = u + ll * (r0 + 1.);
+    }
     return true;
 }
 
-- 
2.43.0


From 7c8cedd1ab83ed4895bbfc8fc185cdca5f217031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 06/37] fix: mrcal_point2_mag() called a nonexistent norm2()

---
 basic-geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basic-geometry.h b/basic-geometry.h
index d3782e7..0596419 100644
--- a/basic-geometry.h
+++ b/basic-geometry.h
@@ -109,7 +109,7 @@ static double mrcal_point2_norm2(const mrcal_point2_t a)
 {
     return mrcal_point2_inner(a,a);
 }
-#define mrcal_point2_mag(a) sqrt(norm2(a)) // macro to not require #include <math.h>
+#define mrcal_point2_mag(a) sqrt(mrcal_point2_norm2(a)) // macro to not require #include <math.h>
 
 MRCAL_ATTRIBUTE((unused))
 static mrcal_point2_t mrcal_point2_add(const mrcal_point2_t a, const mrcal_point2_t b)
-- 
2.43.0


From 1830d08bf01f8ffd6e3dc2bc0a5a14eac4f02dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 07/37] fix: cofactors_sym2() returned a wrong (1,1) cofactor

---
 minimath/minimath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minimath/minimath.h b/minimath/minimath.h
index 5580d98..a2233ef 100644
--- a/minimath/minimath.h
+++ b/minimath/minimath.h
@@ -366,7 +366,7 @@ static inline double cofactors_sym2(const double* restrict m, double* restrict c
 {
   c[0] = m[2];
   c[1] = -m[1];
-  c[2] = -m[1];
+  c[2] = m[0];
 
   return m[0]*c[0] + m[1]*c[1];
 }
-- 
2.43.0


From 75da7aafebb0e1f8881aa22f0fff838e35204a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 08/37] fix: Lindstrom triangulation: the second-iteration step
 was scaled by the reciprocal of the intended factor

---
 triangulation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triangulation.cc b/triangulation.cc
index 679c0f9..aa8d95b 100644
--- a/triangulation.cc
+++ b/triangulation.cc
@@ -369,7 +369,7 @@ mrcal_triangulate_lindstrom(// outputs
     // Step 12. l *= 2*d/( nps.inner(n,n) + nps.inner(nn,nn) )
     val_withgrad_t<18> bb = (n [0]*n [0] + n [1]*n [1] +
                              nn[0]*nn[0] + nn[1]*nn[1]) * 0.5;
-    l = l/d * bb;
+    l = l * d / bb;
 
     // Step 13. dx  = l*n
     dx[0] = l * n[0];
-- 
2.43.0


From 884e8555b37ca831285d3af00246f62c4945d213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 09/37] fix: triangulation: rays lying in a z=constant plane
 were always reported as not intersecting

---
 triangulation.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/triangulation.cc b/triangulation.cc
index aa8d95b..3cca6dd 100644
--- a/triangulation.cc
+++ b/triangulation.cc
@@ -43,14 +43,32 @@ triangulate_assume_intersect( // output
     //
     double fabs_det_xz = fabs(-v0.v[0].x*v1.v[2].x + v0.v[2].x*v1.v[0].x);
     double fabs_det_yz = fabs(-v0.v[1].x*v1.v[2].x + v0.v[2].x*v1.v[1].x);
+    // "z" isn't always dominant: wide lenses can see points 90deg off-axis. If
+    // the rays lie in a z = constant plane, xy is the only usable option
+    double fabs_det_xy = fabs(-v0.v[0].x*v1.v[1].x + v0.v[1].x*v1.v[0].x);
 
     // If using xz, I have:
     //
     //   k = 1/(-v0[0]*v1[2] + v0[2]*v1[0]) * [-v1[2]     v1[0] ] t01
     //                                        [-v0[2]     v0[0] ]
     // [0] -> [1] if using yz
+    // [2] -> [1] if using xy
     val_withgrad_t<NGRAD> k0;
-    if(fabs_det_xz > fabs_det_yz)
+    if(fabs_det_xy > fabs_det_xz && fabs_det_xy > fabs_det_yz)
+    {
+        // xy
+        if(fabs_det_xy <= 1e-10)
+            return false;
+
+        val_withgrad_t<NGRAD> det = v1.v[0]*v0.v[1] - v0.v[0]*v1.v[1];
+        k0 = (t01.v[1]*v1.v[0] - t01.v[0]*v1.v[1]) / det;
+        if(k0.x <= 0.0)
+            return false;
+        bool k1_negative = (t01.v[1].x*v0.v[0].x > t01.v[0].x*v0.v[1].x) ^ (det.x > 0);
+        if(k1_negative)
+            return false;
+    }
+    else if(fabs_det_xz > fabs_det_yz)
     {
         // xz
         if(fabs_det_xz <= 1e-10)
-- 
2.43.0


From 8af65418c7efede0e0e7f08cca8cb001fcef0d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 10/37] fix: image accessors: honour row strides that aren't a
 multiple of the pixel size

---
 image.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/image.h b/image.h
index cc629b2..725b624 100644
--- a/image.h
+++ b/image.h
@@ -83,13 +83,14 @@ typedef struct                                                          \
 static inline                                                           \
 T* mrcal_image_ ## Tname ## _at(mrcal_image_ ## Tname ## _t* image, int x, int y) \
 {                                                                       \
-    return &image->data[x + y*image->stride / sizeof(T)];               \
+    /* The stride is in bytes, and isn't necessarily a multiple of sizeof(T) */ \
+    return &((T*)((char*)image->data + (int64_t)y*image->stride))[x];   \
 }                                                                       \
                                                                         \
 static inline                                                           \
 const T* mrcal_image_ ## Tname ## _at_const(const mrcal_image_ ## Tname ## _t* image, int x, int y) \
 {                                                                       \
-    return &image->data[x + y*image->stride / sizeof(T)];               \
+    return &((const T*)((const char*)image->data + (int64_t)y*image->stride))[x]; \
 }                                                                       \
                                                                         \
 static inline                                                           \
-- 
2.43.0


From 51b0ae24fd6d99e68204461eccc92328ab54d8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 11/37] fix: loading a 16-bit image as 8-bit: find the true
 maximum, don't divide by 0 on a constant image

---
 image.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/image.c b/image.c
index ea1b289..541ff7c 100644
--- a/image.c
+++ b/image.c
@@ -383,12 +383,15 @@ void stretch_equalization_uint8_from_uint16(mrcal_image_uint8_t* out,
         for (int j=0; j<in->width; j++)
         {
             const uint16_t x = row_in[j];
-            if      (x < min) min = x;
-            else if (x > max) max = x;
+            if(x < min) min = x;
+            if(x > max) max = x;
         }
     }
 
     uint16_t max_min = max-min;
+    if(max_min == 0)
+        // constant image: don't divide by 0. The output will be all-0
+        max_min = 1;
 
     for(int i=0; i<in->height; i++)
     {
-- 
2.43.0


From 899a1f7e4ea553c28d1e8793655c48f1ee79ba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 12/37] fix: mrcal_apply_color_map_...(): all-negative
 floating-point images, wide-range integer images

---
 stereo.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/stereo.c b/stereo.c
index ec97040..d127c60 100644
--- a/stereo.c
+++ b/stereo.c
@@ -1143,7 +1143,11 @@ gnuplot_color_formula(uint8_t* out,
 //        36: 2*x - 1
 //      * negative numbers mean inverted=negative colour component
 //      * thus the ranges in `set pm3d rgbformulae' are -36..36
-#define DEFINE_mrcal_apply_color_map(T,Tname,T_MIN,T_MAX)               \
+// Subtracting directly in T may overflow if T is a signed type. I only compute
+// differences when a>=b
+#define COLOR_MAP_DIFF_INT(  a,b) ((double)((uint64_t)(a) - (uint64_t)(b)))
+#define COLOR_MAP_DIFF_FLOAT(a,b) ((double)(a) - (double)(b))
+#define DEFINE_mrcal_apply_color_map(T,Tname,T_MIN,T_MAX,DIFF)          \
     bool mrcal_apply_color_map_##Tname(                                 \
         mrcal_image_bgr_t*    out,                                      \
         const mrcal_image_##Tname##_t* in,                              \
@@ -1212,7 +1216,7 @@ gnuplot_color_formula(uint8_t* out,
             else if(*in_T >= in_max)                                    \
                 x = 1.0f;                                               \
             else                                                        \
-                x = (float)(*in_T - in_min) / (float)(in_max - in_min); \
+                x = (float)( DIFF(*in_T, in_min) / DIFF(in_max, in_min) ); \
                                                                         \
             if(!gnuplot_color_formula(&out_bgr->bgr[2], function_red,   x) || \
                !gnuplot_color_formula(&out_bgr->bgr[1], function_green, x) || \
@@ -1224,18 +1228,19 @@ gnuplot_color_formula(uint8_t* out,
     return true;                                                        \
 }
 
-DEFINE_mrcal_apply_color_map(uint8_t,  uint8,  0,         UINT8_MAX)
-DEFINE_mrcal_apply_color_map(uint16_t, uint16, 0,         UINT16_MAX)
-DEFINE_mrcal_apply_color_map(uint32_t, uint32, 0,         UINT32_MAX)
-DEFINE_mrcal_apply_color_map(uint64_t, uint64, 0,         UINT64_MAX)
+DEFINE_mrcal_apply_color_map(uint8_t,  uint8,  0,         UINT8_MAX, COLOR_MAP_DIFF_INT)
+DEFINE_mrcal_apply_color_map(uint16_t, uint16, 0,         UINT16_MAX, COLOR_MAP_DIFF_INT)
+DEFINE_mrcal_apply_color_map(uint32_t, uint32, 0,         UINT32_MAX, COLOR_MAP_DIFF_INT)
+DEFINE_mrcal_apply_color_map(uint64_t, uint64, 0,         UINT64_MAX, COLOR_MAP_DIFF_INT)
 
-DEFINE_mrcal_apply_color_map(int8_t,   int8,   INT8_MIN,  INT8_MAX)
-DEFINE_mrcal_apply_color_map(int16_t,  int16,  INT16_MIN, INT16_MAX)
-DEFINE_mrcal_apply_color_map(int32_t,  int32,  INT32_MIN, INT32_MAX)
-DEFINE_mrcal_apply_color_map(int64_t,  int64,  INT64_MIN, INT64_MAX)
+DEFINE_mrcal_apply_color_map(int8_t,   int8,   INT8_MIN,  INT8_MAX, COLOR_MAP_DIFF_INT)
+DEFINE_mrcal_apply_color_map(int16_t,  int16,  INT16_MIN, INT16_MAX, COLOR_MAP_DIFF_INT)
+DEFINE_mrcal_apply_color_map(int32_t,  int32,  INT32_MIN, INT32_MAX, COLOR_MAP_DIFF_INT)
+DEFINE_mrcal_apply_color_map(int64_t,  int64,  INT64_MIN, INT64_MAX, COLOR_MAP_DIFF_INT)
 
-DEFINE_mrcal_apply_color_map(float,    float,  FLT_MIN,   FLT_MAX)
-DEFINE_mrcal_apply_color_map(double,   double, DBL_MIN,   DBL_MAX)
+// FLT_MIN, DBL_MIN are the smallest POSITIVE values. I want the lowest values
+DEFINE_mrcal_apply_color_map(float,    float,  -FLT_MAX,  FLT_MAX, COLOR_MAP_DIFF_FLOAT)
+DEFINE_mrcal_apply_color_map(double,   double, -DBL_MAX,  DBL_MAX, COLOR_MAP_DIFF_FLOAT)
 
 
 
-- 
2.43.0


From 2556012b5783123a01096a61ff5cfca2c0e519ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 13/37] fix: mrcal_align_procrustes_points_Rt01(): align the
 weighted means

The weights were used in the rotation only. The translation aligned the
unweighted means, so the resulting pose was not the minimizer of the weighted
error
---
 mrcal/utils.py | 13 ++++++++++---
 poseutils.c    | 21 +++++++++++++++------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 7b19378..02cc456 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -45,10 +45,17 @@ def _align_procrustes_points_Rt01(p0, p1, weights):
     p0 = nps.transpose(p0)
     p1 = nps.transpose(p1)
 
+    # The optimal translation aligns the WEIGHTED means. If the weights are all 0,
+    # the problem is degenerate. This will be detected below
+    sumw = np.sum(weights)
+    if sumw == 0: sumw = 1.
+    mean0 = np.sum(p0*weights, axis=-1) / sumw
+    mean1 = np.sum(p1*weights, axis=-1) / sumw
+
     # I process Mt instead of M to not need to transpose anything later, and to
     # end up with contiguous-memory results
-    Mt = nps.matmult(              (p0 - np.mean(p0, axis=-1)[..., np.newaxis])*weights,
-                      nps.transpose(p1 - np.mean(p1, axis=-1)[..., np.newaxis]))
+    Mt = nps.matmult(              (p0 - mean0[..., np.newaxis])*weights,
+                      nps.transpose(p1 - mean1[..., np.newaxis]))
     V,S,Ut = np.linalg.svd(Mt)
 
     # I look at the second-lowest singular value. One 0 singular value is OK;
@@ -69,7 +76,7 @@ def _align_procrustes_points_Rt01(p0, p1, weights):
     # Now that I have my optimal R, I compute the optimal t. From before:
     #
     #   t = mean(a) - R mean(b)
-    t = np.mean(p0, axis=-1)[..., np.newaxis] - nps.matmult( R, np.mean(p1, axis=-1)[..., np.newaxis] )
+    t = mean0[..., np.newaxis] - nps.matmult( R, mean1[..., np.newaxis] )
 
     return nps.glue( R, t.ravel(), axis=-2)
 
diff --git a/poseutils.c b/poseutils.c
index 55b12b8..1fdeaec 100644
--- a/poseutils.c
+++ b/poseutils.c
@@ -1631,18 +1631,27 @@ bool mrcal_align_procrustes_points_Rt01(// out
 {
     double pmean0[3] = {};
     double pmean1[3] = {};
+    double sumw      = 0.;
 
+    // The optimal translation aligns the WEIGHTED means
     for(int i=0; i<N; i++)
+    {
+        const double w = (weights == NULL) ? 1.0 : weights[i];
+        sumw += w;
         for(int j=0; j<3; j++)
         {
-            pmean0[j] += p0[i*3+j];
-            pmean1[j] += p1[i*3+j];
+            pmean0[j] += w*p0[i*3+j];
+            pmean1[j] += w*p1[i*3+j];
         }
-    for(int j=0; j<3; j++)
-    {
-        pmean0[j] /= (double)N;
-        pmean1[j] /= (double)N;
     }
+    // If the weights are all 0, the problem is degenerate. This will be detected
+    // below
+    if(sumw != 0.)
+        for(int j=0; j<3; j++)
+        {
+            pmean0[j] /= sumw;
+            pmean1[j] /= sumw;
+        }
     if(!_align_procrustes_vectors_R01(Rt01,N,p0,p1,pmean0,pmean1,weights))
         return false;
 
-- 
2.43.0


From 9fb803113c5130a8d45e7731ac81cbceed03772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 14/37] fix: mrcal_lensmodel_name(): write the CAHVORE
 linearity exactly

It was written with 2 decimal digits, so parsing the name produced a different
model
---
 types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.h b/types.h
index f551331..f9e6f6d 100644
--- a/types.h
+++ b/types.h
@@ -68,7 +68,7 @@ static_assert(sizeof(uint16_t) == sizeof(unsigned short int), "I need a short to
 // Configuration for CAHVORE. These are given as an an
 // "X macro": https://en.wikipedia.org/wiki/X_Macro
 #define MRCAL_LENSMODEL_CAHVORE_CONFIG_LIST(_, cookie) \
-    _(linearity,    double, "d", ".2f", "lf", , cookie)
+    _(linearity,    double, "d", ".17g", "lf", , cookie)
 typedef struct
 {
     MRCAL_LENSMODEL_CAHVORE_CONFIG_LIST(_MRCAL_ITEM_DEFINE_ELEMENT, )
-- 
2.43.0


From 3562290cff9969c32a988636d883cefb319dadaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 15/37] fix: mrcal_lensmodel_from_name(): reject out-of-range
 configuration values

The values that do not fit into the uint16_t fields were silently wrapped
---
 mrcal.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 047bfe8..6c58306 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -128,15 +128,35 @@ static bool LENSMODEL_CAHVORE__scan_model_config( mrcal_LENSMODEL_CAHVORE__confi
 }
 static bool LENSMODEL_SPLINED_STEREOGRAPHIC__scan_model_config( mrcal_LENSMODEL_SPLINED_STEREOGRAPHIC__config_t* config, const char* config_str)
 {
+    // All of these are uint16_t. sscanf() doesn't detect out-of-range values, so
+    // I scan into larger integers, and I check the range explicitly. The 9-digit
+    // limit makes sure that nothing can overflow an int
+#define SCAN_INT_DECLARE(name, type, pybuildvaluecode, PRIcode,SCNcode, bitfield, cookie) int name;
+#define SCAN_INT_FMT(    name, type, pybuildvaluecode, PRIcode,SCNcode, bitfield, cookie) "_" #name "=%9d"
+#define SCAN_INT_VAR(    name, type, pybuildvaluecode, PRIcode,SCNcode, bitfield, cookie) ,&name
+#define SCAN_INT_INVALID(name, type, pybuildvaluecode, PRIcode,SCNcode, bitfield, cookie) || name < 0 || name > UINT16_MAX
+#define SCAN_INT_STORE(  name, type, pybuildvaluecode, PRIcode,SCNcode, bitfield, cookie) config->name = (type)name;
+
+    MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC_CONFIG_LIST(SCAN_INT_DECLARE, );
     int pos;
     int Nelements = 0 MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC_CONFIG_LIST(LENSMODEL_SCAN_CFG_ELEMENT_PLUS1, );
-    return
-        Nelements ==
+    if( Nelements !=
         sscanf( config_str,
-                MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC_CONFIG_LIST(LENSMODEL_SCAN_CFG_ELEMENT_FMT, )"%n"
-                MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC_CONFIG_LIST(LENSMODEL_SCAN_CFG_ELEMENT_VAR, ),
-                &pos) &&
-        config_str[pos] == '\0';
+                MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC_CONFIG_LIST(SCAN_INT_FMT, )"%n"
+                MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC_CONFIG_LIST(SCAN_INT_VAR, ),
+                &pos) ||
+        config_str[pos] != '\0'
+        MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC_CONFIG_LIST(SCAN_INT_INVALID, ) )
+        return false;
+
+    MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC_CONFIG_LIST(SCAN_INT_STORE, );
+    return true;
+
+#undef SCAN_INT_DECLARE
+#undef SCAN_INT_FMT
+#undef SCAN_INT_VAR
+#undef SCAN_INT_INVALID
+#undef SCAN_INT_STORE
 }
 
 const char* const* mrcal_supported_lensmodel_names( void )
-- 
2.43.0


From 685a2e990dfd1a2775271f65e5aab268d2370dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 16/37] fix: mrcal_write_cameramodel_file(): write
 full-precision values

%f keeps 6 decimal places, so models did not survive being written and read back
---
 mrcal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 6c58306..cc9a79b 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -6679,12 +6679,12 @@ bool mrcal_write_cameramodel_file(const char* filename,
     fprintf(fp, "  'lensmodel':  '%s',\n", lensmodel_string);
     fprintf(fp, "  'intrinsics': [ ");
     for(int i=0; i<Nparams; i++)
-        fprintf(fp, "%f, ", cameramodel->intrinsics[i]);
+        fprintf(fp, "%.17g, ", cameramodel->intrinsics[i]);
     fprintf(fp, "],\n");
     fprintf(fp, "  'imagersize': [ %u, %u ],\n",
             cameramodel->imagersize[0],
             cameramodel->imagersize[1]);
-    fprintf(fp, "  'extrinsics': [ %f, %f, %f, %f, %f, %f ]\n",
+    fprintf(fp, "  'extrinsics': [ %.17g, %.17g, %.17g, %.17g, %.17g, %.17g ]\n",
             cameramodel->rt_cam_ref[0],
             cameramodel->rt_cam_ref[1],
             cameramodel->rt_cam_ref[2],
-- 
2.43.0


From 65d730bbd444d989a13735ece0e1f189007a5c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 17/37] fix: cameramodel parser: reject out-of-range integers

These were silently wrapped: an imagersize of 4294967297 was read as 1
---
 cameramodel-parser.re | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cameramodel-parser.re b/cameramodel-parser.re
index cd170da..4569f6d 100644
--- a/cameramodel-parser.re
+++ b/cameramodel-parser.re
@@ -22,6 +22,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <float.h>
+#include <limits.h>
 #include <math.h>
 
 #include "mrcal.h"
@@ -217,14 +218,15 @@ static bool ingest_uint_consume_ignorable(void* out0, int i,
         char tok[N+1];
         memcpy(tok, s, N);
         tok[N] = '\0';
-        int si = atoi(tok);
-        if( N == 0 || si < 0 )
+        // strtoull() saturates, so out-of-range values are detected too
+        const unsigned long long ull = strtoull(tok, NULL, 10);
+        if( N == 0 || ull > UINT_MAX )
         {
             MSG("Error parsing unsigned int for %s at %ld. String: '%s'",
                 what, (long int)(*pYYCURSOR-start_file), tok);
             return false;
         }
-        ((unsigned int*)out0)[i] = (unsigned int)si;
+        ((unsigned int*)out0)[i] = (unsigned int)ull;
     }
 
     *pYYCURSOR = YYCURSOR;
-- 
2.43.0


From 2a3a20a3e35aa816ae72f9c2ffc1c84aa31a33ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 18/37] fix: optimizer callback: clear both rows of the pose
 gradients when a CAHVORE projection fails

Each of these arrays has 2 mrcal_point3_t (the gradient of q.x and of q.y). Only
the first was cleared, so the Jacobian rows of q.y were uninitialized memory
---
 mrcal.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index cc9a79b..23053b0 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -2525,10 +2525,10 @@ void _project_point( // outputs
             memset(q, 0, sizeof(*q));
             if(p_dq_dfxy)               memset(p_dq_dfxy,               0, sizeof(*p_dq_dfxy));
             if(p_dq_dintrinsics_nocore) memset(p_dq_dintrinsics_nocore, 0, sizeof(*p_dq_dintrinsics_nocore) * 2 * (Nintrinsics-4));
-            if(dq_drcamera)             memset(dq_drcamera,             0, sizeof(*dq_drcamera));
-            if(dq_dtcamera)             memset(dq_dtcamera,             0, sizeof(*dq_dtcamera));
-            if(dq_drframe)              memset(dq_drframe,              0, sizeof(*dq_drframe));
-            if(dq_dtframe)              memset(dq_dtframe,              0, sizeof(*dq_dtframe));
+            if(dq_drcamera)             memset(dq_drcamera,             0, sizeof(dq_drcamera[0])*2);
+            if(dq_dtcamera)             memset(dq_dtcamera,             0, sizeof(dq_dtcamera[0])*2);
+            if(dq_drframe)              memset(dq_drframe,              0, sizeof(dq_drframe[0])*2);
+            if(dq_dtframe)              memset(dq_dtframe,              0, sizeof(dq_dtframe[0])*2);
 
         }
     }
-- 
2.43.0


From 7d0c1bd88e57ba74a576b7dce0fc9b4a78a92c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 19/37] fix: reject outliers using the poses of the solution,
 not of the seed

markOutliers() looks for divergent triangulated rays using rt_cam_ref, but
mrcal_optimize() unpacked the solution into rt_cam_ref only after the last outlier
pass. So observations whose rays diverge at the seed were marked as outliers even
if they fit perfectly at the solution
---
 mrcal.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 23053b0..8199f40 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -6466,6 +6466,21 @@ mrcal_optimize( // out
                 // libdogleg barfed. I quit out
                 goto done;
 
+            // I have the state at this solution. I spit it back out. This must happen
+            // before the outlier rejection: markOutliers() uses rt_cam_ref
+            unpack_solver_state( intrinsics,         // Ncameras_intrinsics of these
+                                 rt_cam_ref,         // Ncameras_extrinsics of these
+                                 rt_ref_frame,       // Nframes of these
+                                 points,             // Npoints of these
+                                 calobject_warp,
+                                 packed_state,
+                                 lensmodel,
+                                 problem_selections,
+                                 Ncameras_intrinsics, Ncameras_extrinsics,
+                                 Nframes, Npoints-Npoints_fixed,
+                                 Nobservations_board,
+                                 Nstate);
+
 #if 0
             // Not using dogleg_markOutliers() (yet...)
 
@@ -6508,20 +6523,6 @@ mrcal_optimize( // out
 #endif
 
 
-        // Done. I have the final state. I spit it back out
-        unpack_solver_state( intrinsics,         // Ncameras_intrinsics of these
-                             rt_cam_ref,         // Ncameras_extrinsics of these
-                             rt_ref_frame,       // Nframes of these
-                             points,             // Npoints of these
-                             calobject_warp,
-                             packed_state,
-                             lensmodel,
-                             problem_selections,
-                             Ncameras_intrinsics, Ncameras_extrinsics,
-                             Nframes, Npoints-Npoints_fixed,
-                             Nobservations_board,
-                             Nstate);
-
         double regularization_ratio_distortion  = 0.0;
         double regularization_ratio_centerpixel = 0.0;
         const int imeas_reg0 =
-- 
2.43.0


From 43e240dcb84109181e7b8a992a70a356b4d15cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 20/37] fix: mrcal_unproject(): report failures as a full NaN
 vector, never flip a CAHVORE vector

- a failed point had only x and y set to NaN: z was left uninitialized
- a failed solve (norm2x < 0) or a NaN error were treated as success
- vectors with z<0 are flipped for models that cannot project behind the camera, but
  CAHVORE doesn't project v and -v to the same pixel, so the flipped vector did not
  project back to the given pixel. This is now a failure
---
 mrcal.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 8199f40..d0c6b2e 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -3273,7 +3273,9 @@ bool _mrcal_unproject_internal( // out
 
         static bool already_complained = false;
         // MSG("norm2x = %g", norm2x);
-        if(norm2x/2.0 > 1e-4)
+        // norm2x < 0 if the solver failed. And I treat a nan as a failure also
+        bool success = norm2x >= 0.0 && norm2x/2.0 <= 1e-4;
+        if(!success)
         {
             if(!already_complained)
             {
@@ -3281,9 +3283,6 @@ bool _mrcal_unproject_internal( // out
                 //     norm2x);
                 already_complained = true;
             }
-            double nan = strtod("NAN", NULL);
-            out->xyz[0] = nan;
-            out->xyz[1] = nan;
         }
         else
         {
@@ -3297,11 +3296,26 @@ bool _mrcal_unproject_internal( // out
                                           intrinsics);
             if(!model_supports_projection_behind_camera(lensmodel) && out->xyz[2] < 0.0)
             {
-                out->xyz[0] *= -1.0;
-                out->xyz[1] *= -1.0;
-                out->xyz[2] *= -1.0;
+                if( lensmodel->type == MRCAL_LENSMODEL_CAHVORE )
+                    // Unlike the other models that can't project behind the
+                    // camera, CAHVORE doesn't project v and -v to the same
+                    // pixel, so I can't flip the vector
+                    success = false;
+                else
+                {
+                    out->xyz[0] *= -1.0;
+                    out->xyz[1] *= -1.0;
+                    out->xyz[2] *= -1.0;
+                }
             }
         }
+        if(!success)
+        {
+            double nan = strtod("NAN", NULL);
+            out->xyz[0] = nan;
+            out->xyz[1] = nan;
+            out->xyz[2] = nan;
+        }
 
         // Advance to the next point. Error or not
         out++;
-- 
2.43.0


From 2e9f9f3bb5bdbf85b1d57b780529f79ed1d1019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 21/37] fix: cameramodel.write(): write the numbers with full
 double precision

%.10g does not identify a double: the model that is read back is a different one
---
 mrcal/cameramodel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index ae8a8cb..320a6a6 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -516,18 +516,18 @@ A sample valid .cameramodel file:
         N = len(self._intrinsics[1])
         if(mrcal.lensmodel_metadata_and_config(self._intrinsics[0])['has_core']):
             f.write("    # intrinsics are fx,fy,cx,cy,distortion0,distortion1,....\n")
-        f.write(("    'intrinsics': [" + (" {:.10g}," * N) + "],\n").format(*self._intrinsics[1]))
+        f.write(("    'intrinsics': [" + (" {:.17g}," * N) + "],\n").format(*self._intrinsics[1]))
         f.write("\n")
 
         if self._valid_intrinsics_region is not None:
             f.write("    'valid_intrinsics_region': [\n")
             for row in self._valid_intrinsics_region:
-                f.write(("    [ {:.10g}, {:.10g} ],\n").format(*row))
+                f.write(("    [ {:.17g}, {:.17g} ],\n").format(*row))
             f.write("],\n\n")
 
         N = len(self._rt_cam_ref)
-        f.write(("    'rt_cam_ref': [" + (" {:.10g}," * N) + "],\n").format(*self._rt_cam_ref))
-        f.write(("    'extrinsics': [" + (" {:.10g}," * N) + "], # for compatibility with mrcal < 2.5\n").format(*self._rt_cam_ref))
+        f.write(("    'rt_cam_ref': [" + (" {:.17g}," * N) + "],\n").format(*self._rt_cam_ref))
+        f.write(("    'extrinsics': [" + (" {:.17g}," * N) + "], # for compatibility with mrcal < 2.5\n").format(*self._rt_cam_ref))
         f.write("\n")
 
         N = 2
-- 
2.43.0


From 947b54defd80c7f31539ca591ee851f7289d365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 22/37] fix: mrcal_write_cameramodel_file(): report failed
 writes

A full disk, for instance, was reported as a success
---
 mrcal.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index d0c6b2e..ca7fd14 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -6711,8 +6711,17 @@ bool mrcal_write_cameramodel_file(const char* filename,
     result = true;
 
  done:
-    if(fp != NULL)
-        fclose(fp);
+    if(result && ferror(fp))
+    {
+        MSG("Error writing '%s'", filename);
+        result = false;
+    }
+    // Much of the data may be flushed out here, so this can fail also
+    if(0 != fclose(fp) && result)
+    {
+        MSG("Error writing '%s'", filename);
+        result = false;
+    }
     return result;
 }
 
-- 
2.43.0


From 495b63383773fb6523d4e572c492f356ef73e783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 23/37] fix: cameramodel parser: do not infer the presence of a
 key from its value

A first extrinsics value of DBL_MAX was taken to mean that there are no
extrinsics; a first imagersize of 0 allowed a second imagersize. And an
imagersize with a height of 0 is rejected, as it is with a width of 0
---
 cameramodel-parser.re | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cameramodel-parser.re b/cameramodel-parser.re
index 4569f6d..6f7af7e 100644
--- a/cameramodel-parser.re
+++ b/cameramodel-parser.re
@@ -381,6 +381,8 @@ bool read_cameramodel_from_string(// output buffer. If it should be allocated,
 {
     bool model_need_dealloc      = false;
     bool did_read_intrinsics     = false;
+    bool did_read_rt_cam_ref     = false;
+    bool did_read_imagersize     = false;
     bool did_set_Nintrinsics_max = false;
 
     // Set the output structure to invalid values that I can check later
@@ -388,7 +390,7 @@ bool read_cameramodel_from_string(// output buffer. If it should be allocated,
     // at the end. The intrinsics are read directly into *model. This allows us
     // to read in non-intrinsics before the full array is allocated
     mrcal_cameramodel_VOID_t model_not_intrinsics =
-        {.rt_cam_ref[0]   = DBL_MAX,
+        {.rt_cam_ref      = {},
          .imagersize      = {},
          .lensmodel.type  = MRCAL_LENSMODEL_INVALID };
     bool finished = false;
@@ -530,7 +532,7 @@ bool read_cameramodel_from_string(// output buffer. If it should be allocated,
         else if(string_is("extrinsics", key) ||
                 string_is("rt_cam_ref", key))
         {
-            if(model_not_intrinsics.rt_cam_ref[0] != DBL_MAX)
+            if(did_read_rt_cam_ref)
             {
                 // Receiving another one; must be identical
                 double rt_cam_ref[6];
@@ -550,10 +552,12 @@ bool read_cameramodel_from_string(// output buffer. If it should be allocated,
                                                ingest_double_consume_ignorable,
                                                &YYCURSOR, start_file, "extrinsics", 6) )
                 goto done;
+
+            did_read_rt_cam_ref = true;
         }
         else if(string_is("imagersize", key))
         {
-            if(model_not_intrinsics.imagersize[0] > 0)
+            if(did_read_imagersize)
             {
                 MSG("imagersize defined more than once");
                 goto done;
@@ -562,6 +566,8 @@ bool read_cameramodel_from_string(// output buffer. If it should be allocated,
                                           ingest_uint_consume_ignorable,
                                           &YYCURSOR, start_file, "imagersize", 2) )
                 goto done;
+
+            did_read_imagersize = true;
         }
         else
         {
@@ -641,8 +647,10 @@ bool read_cameramodel_from_string(// output buffer. If it should be allocated,
     // Done parsing everything! Validate and finalize
     if(!(model_not_intrinsics.lensmodel.type >= 0 &&
          did_read_intrinsics &&
-         model_not_intrinsics.rt_cam_ref[0] != DBL_MAX &&
-         model_not_intrinsics.imagersize[0] > 0))
+         did_read_rt_cam_ref &&
+         did_read_imagersize &&
+         model_not_intrinsics.imagersize[0] > 0 &&
+         model_not_intrinsics.imagersize[1] > 0))
     {
         MSG("Incomplete cameramodel. Need keys: lensmodel, intrinsics, rt_cam_ref/extrinsics, imagersize");
         if(model_need_dealloc)
-- 
2.43.0


From f08cfb75905959e9c9520f49721ac8a7ba116fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:03 +0000
Subject: [PATCH 24/37] fix: poseutils Python wrappers: support arrays with
 strides <= 0

The C functions interpret strides <= 0 as "contiguous", so passing in a numpy
array with such strides (a reversed x[::-1] or a np.broadcast_to(...)) read and
wrote the wrong memory, past the bounds of the array
---
 poseutils-genpywrap.py | 110 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 109 insertions(+), 1 deletion(-)

diff --git a/poseutils-genpywrap.py b/poseutils-genpywrap.py
index 71c6abf..31cfb38 100755
--- a/poseutils-genpywrap.py
+++ b/poseutils-genpywrap.py
@@ -35,11 +35,119 @@ mrcal._poseutils.fff() or mrcal.fff(). The latter is preferred.
 '''
 
 
-m = npsp.module( name      = "_poseutils_npsp",
+class module_any_strides(npsp.module):
+    r'''npsp.module that supports slices with any strides
+
+    The mrcal_..._full() C functions interpret strides <= 0 as "contiguous". But
+    numpy arrays CAN have such strides: x[::-1], np.broadcast_to(x, ...) and so
+    on. Those slices are passed to the C functions through a contiguous
+    temporary
+
+    '''
+    def function(self, *args, **kwargs):
+
+        # The functions that validate their arguments do their own checking of
+        # the strides
+        if 'Ccode_validate' not in kwargs:
+
+            prototype_output = kwargs['prototype_output']
+            if len(prototype_output) and isinstance(prototype_output[0], tuple):
+                names_output = [f"output{i}" for i in range(len(prototype_output))]
+            else:
+                names_output = ["output"]
+
+            prologue = \
+                ''.join(f"    SLICE_ANY_STRIDES({name}, false);\n" for name in kwargs['args_input']) + \
+                ''.join(f"    SLICE_ANY_STRIDES({name}, true);\n"  for name in names_output)
+
+            kwargs['Ccode_slice_eval'] = \
+                { t: prologue + code for t,code in kwargs['Ccode_slice_eval'].items() }
+
+        super().function(*args, **kwargs)
+
+
+m = module_any_strides( name      = "_poseutils_npsp",
                  docstring = docstring_module,
                  header    = r'''
 #include "poseutils.h"
 #include <string.h>
+
+// Support for slices with strides <= 0. See module_any_strides in
+// poseutils-genpywrap.py
+#define SLICE_NDIMS_MAX 3
+#define SLICE_NELEM_MAX 36
+
+typedef struct
+{
+    bool            active, is_output;
+    int             Ndims;
+    const npy_intp* dims;
+    char*           data;
+    const npy_intp* strides;
+
+    double          buffer        [SLICE_NELEM_MAX];
+    npy_intp        buffer_strides[SLICE_NDIMS_MAX];
+} slice_contiguous_t;
+
+static void slice_contiguous_copy(slice_contiguous_t* s, bool to_buffer)
+{
+    int N = 1;
+    for(int i=0; i<s->Ndims; i++) N *= s->dims[i];
+
+    for(int ielem=0; ielem<N; ielem++)
+    {
+        char* p = s->data;
+        int   k = ielem;
+        for(int i=s->Ndims-1; i>=0; i--)
+        {
+            p += (k % s->dims[i]) * s->strides[i];
+            k /= s->dims[i];
+        }
+        if(to_buffer) s->buffer[ielem] = *(double*)p;
+        else          *(double*)p      = s->buffer[ielem];
+    }
+}
+
+static bool slice_contiguous_init(slice_contiguous_t* s, bool is_output,
+                                  void* data,
+                                  int Ndims, const npy_intp* dims, const npy_intp* strides)
+{
+    s->active    = false;
+    s->is_output = is_output;
+    s->data      = (char*)data;
+    s->Ndims     = Ndims;
+    s->dims      = dims;
+    s->strides   = strides;
+
+    npy_intp stride = sizeof(double);
+    for(int i=Ndims-1; i>=0; i--)
+    {
+        if(strides[i] <= 0) s->active = true;
+        s->buffer_strides[i] = stride;
+        stride *= dims[i];
+    }
+    if(s->active) slice_contiguous_copy(s, true);
+    return s->active;
+}
+
+static void slice_contiguous_finish(slice_contiguous_t* s)
+{
+    if(s->active && s->is_output) slice_contiguous_copy(s, false);
+}
+
+#define SLICE_ANY_STRIDES(name, is_output)                              \
+    slice_contiguous_t __contiguous__ ## name                           \
+        __attribute__((cleanup(slice_contiguous_finish)));              \
+    if( slice_contiguous_init( &__contiguous__ ## name, is_output,      \
+                               data_slice__    ## name,                 \
+                               Ndims_slice__   ## name,                 \
+                               dims_slice__    ## name,                 \
+                               strides_slice__ ## name ) )              \
+    {                                                                   \
+        data_slice__    ## name = __contiguous__ ## name.buffer;        \
+        strides_slice__ ## name = __contiguous__ ## name.buffer_strides; \
+    }
+
 ''')
 
 m.function( "identity_R",
-- 
2.43.0


From dd870e8c81c6cecabea184b9d15726f8aaf7ceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:03 +0000
Subject: [PATCH 25/37] fix: unproject(get_gradients=True): support out=(...)

The models with non-trivial unprojections tried to assign into the given tuple,
and raised an exception. And the previous contents of the out arrays must not
affect the result: nan*0 is nan
---
 mrcal/projections.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mrcal/projections.py b/mrcal/projections.py
index f777533..10811dc 100644
--- a/mrcal/projections.py
+++ b/mrcal/projections.py
@@ -304,7 +304,7 @@ if get_gradients: we return a tuple:
                     not any(np.array(out[2].shape[:-len(dv_di_shape)]) - 1)):
                 raise Exception(f"Shape of out[2] doesn't match broadcasted shape for dv_di. Wanted {dv_di_shape}, but got {out[2].shape}")
             dv_di = out[2]
-            dv_di *= 0
+            dv_di[...] = 0
 
         # dv/df
         dv_di[..., :2] += nps.dummy((cxy - q)/fxy, -2) * dv_dq
@@ -378,8 +378,7 @@ if get_gradients: we return a tuple:
         dv_dq = nps.transpose(np.linalg.solve( nps.transpose(dq_du),
                                                nps.transpose(dv_du) ))
         if out is not None:
-            out[1] *= 0.
-            out[1] += dv_dq
+            out[1][...] = dv_dq
             dv_dq = out[1]
 
 
-- 
2.43.0


From 1ddef7518691846593d7b03543cba8982bef4515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:03 +0000
Subject: [PATCH 26/37] fix: triangulate_lindstrom(v_are_local=False):
 broadcast over Rt01

---
 mrcal/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/triangulation.py b/mrcal/triangulation.py
index c4cbd3f..cd117ff 100644
--- a/mrcal/triangulation.py
+++ b/mrcal/triangulation.py
@@ -941,7 +941,7 @@ if get_gradients: we return a tuple:
     if not v_are_local:
         if get_gradients:
             raise Exception("get_gradients is True, so v_are_local MUST be True")
-        v1 = mrcal.rotate_point_R(nps.transpose(Rt01[:3,:]), v1)
+        v1 = mrcal.rotate_point_R(nps.transpose(Rt01[...,:3,:]), v1)
 
     if not get_gradients:
         return mrcal._triangulation_npsp._triangulate_lindstrom(v0, v1, Rt01, out=out)
-- 
2.43.0


From aeaa88ad77affac974eaacbe2543fd72b937970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:03 +0000
Subject: [PATCH 27/37] fix: apply_color_map(): support negative a_min,a_max
 with floating-point arrays

FLT_MIN and DBL_MIN are the smallest POSITIVE numbers, not the lower bound
---
 mrcal-genpywrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal-genpywrap.py b/mrcal-genpywrap.py
index d69e4f5..d8d4104 100644
--- a/mrcal-genpywrap.py
+++ b/mrcal-genpywrap.py
@@ -998,12 +998,12 @@ unsigned integers. The last row is the BGR color-mapped values.
                 (np.float32, np.uint8): body__apply_color_map \
                   .replace('{T}',     'float') \
                   .replace('{Tname}', 'float') \
-                  .replace('{T_min}', 'FLT_MIN') \
+                  .replace('{T_min}', '-FLT_MAX') \
                   .replace('{T_max}', 'FLT_MAX'),
                 (np.float64, np.uint8): body__apply_color_map \
                   .replace('{T}',     'double') \
                   .replace('{Tname}', 'double') \
-                  .replace('{T_min}',  'DBL_MIN') \
+                  .replace('{T_min}',  '-DBL_MAX') \
                   .replace('{T_max}',  'DBL_MAX'),
             },
 )
-- 
2.43.0


From d8e0fa134703fa83713aaaa1c849683ea7d74a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 28/37] fix: reject numpy arrays that aren't in the native byte
 order

The raw bytes were interpreted as native-order numbers: intrinsics of dtype '>f8'
were silently used as garbage
---
 python-wrapping-utilities.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python-wrapping-utilities.h b/python-wrapping-utilities.h
index d3c3b92..de4c0e7 100644
--- a/python-wrapping-utilities.h
+++ b/python-wrapping-utilities.h
@@ -101,6 +101,12 @@ static bool _check_layout(const char*    name,
                      name, npy_type_string);
                 return false;
             }
+            if( !PyArray_ISNOTSWAPPED(pyarrayobj) )
+            {
+                BARF("'%s' must have the native byte order",
+                     name);
+                return false;
+            }
             if( do_check_for_contiguity &&
                 !PyArray_IS_C_CONTIGUOUS(pyarrayobj) )
             {
-- 
2.43.0


From 641e30e78b17b01a63594affb4b5f26c2e46af9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 29/37] fix: mrcal_image_..._save(): support negative strides,
 reject stride==0 when writing png

libpng wants a pointer to the start of the buffer. With a flipped image we read
memory before and after the image
---
 image.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/image.c b/image.c
index 541ff7c..80cc983 100644
--- a/image.c
+++ b/image.c
@@ -72,7 +72,20 @@ bool generic_save_png(const char* filename,
                          .format  =
                              bits_per_pixel == 24 ? PNG_FORMAT_RGB :
                                  (bits_per_pixel == 16 ? PNG_FORMAT_LINEAR_Y : PNG_FORMAT_GRAY) };
-    if(!png_image_write_to_file(&pimage, filename, 0, image->data,
+    if(image->stride == 0 && image->height > 1)
+    {
+        // libpng interprets this as "densely-stored"
+        MSG("png writing requires stride != 0");
+        goto done;
+    }
+
+    // row i lives at data + i*stride. With a negative stride libpng wants a
+    // pointer to the start of the buffer instead: the LAST row
+    const uint8_t* data = (const uint8_t*)image->data;
+    if(image->stride < 0)
+        data += (ptrdiff_t)(image->height-1) * image->stride;
+
+    if(!png_image_write_to_file(&pimage, filename, 0, data,
                                 bits_per_pixel == 16 ? image->stride/2 : image->stride,
                                 NULL))
     {
-- 
2.43.0


From 3f8aa5279c108a2573eaf170eba4edcfcf918d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 30/37] fix: CHOLMOD_factorization.solve_xt_JtJ_bt(): no
 division by 0 if the input has 0 columns

---
 mrcal-pywrap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 86dc537..a848c20 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -496,7 +496,6 @@ CHOLMOD_factorization_solve_xt_JtJ_bt(CHOLMOD_factorization* self, PyObject* arg
 #undef SYS_NAME
 
     int Nstate = (int)PyArray_DIMS((PyArrayObject*)Py_bt)[ndim-1];
-    int Nrhs   = (int)PyArray_SIZE((PyArrayObject*)Py_bt) / Nstate;
 
     if( self->factorization->n != (unsigned)Nstate )
     {
@@ -517,6 +516,7 @@ CHOLMOD_factorization_solve_xt_JtJ_bt(CHOLMOD_factorization* self, PyObject* arg
     }
 
     // Alright. b looks good-enough to use
+    int Nrhs   = (int)PyArray_SIZE((PyArrayObject*)Py_bt) / Nstate;
     if( 0 == Nrhs )
     {
         // Degenerate input (0 columns). Just return it, and I'm done
-- 
2.43.0


From 04568e33dacf5de2406820ccaf00fbe174770725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 31/37] fix: optimize(), optimizer_callback() reject
 Npoints_fixed < 0

---
 mrcal-pywrap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index a848c20..177e70a 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1138,6 +1138,11 @@ static bool optimize_validate_args( // out
     }
 
     int Npoints = PyArray_DIMS(points)[0];
+    if( Npoints_fixed < 0 )
+    {
+        BARF("Npoints_fixed MUST be >= 0; got %d", Npoints_fixed);
+        return false;
+    }
     if( Npoints > 0 )
     {
         if(Npoints_fixed > Npoints)
-- 
2.43.0


From 85aefbd11a28133a6c711158b7428c89a17b0b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 32/37] fix: pack_state(), unpack_state(): no division by 0 if
 there are no states

---
 mrcal-pywrap.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 177e70a..4359a46 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -3557,9 +3557,12 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
         goto done;
     }
 
+    // With no states I have no data, and there's nothing to do
+    const int Nvectors = Nstate > 0 ? (int)(PyArray_SIZE(b)/Nstate) : 0;
+
     double* x = (double*)PyArray_DATA(b);
     if(pack)
-        for(int i=0; i<PyArray_SIZE(b)/Nstate; i++)
+        for(int i=0; i<Nvectors; i++)
         {
             mrcal_pack_solver_state_vector( x,
                                             Ncameras_intrinsics, Ncameras_extrinsics,
@@ -3568,7 +3571,7 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
             x = &x[Nstate];
         }
     else
-        for(int i=0; i<PyArray_SIZE(b)/Nstate; i++)
+        for(int i=0; i<Nvectors; i++)
         {
             mrcal_unpack_solver_state_vector( x,
                                               Ncameras_intrinsics, Ncameras_extrinsics,
-- 
2.43.0


From c5dd435169eb9d79d64878b1a1c51968baff1caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 33/37] fix: state_index_...(), num_states_...(),
 measurement_index_...(), pack_state() accept the documented arguments

Calling these with no keyword arguments crashed. And the documented count
arguments (Ncameras_intrinsics, ...) and passing the index by keyword were
rejected as unknown
---
 mrcal-pywrap.c | 68 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 55 insertions(+), 13 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 4359a46..a315d15 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1493,12 +1493,17 @@ static bool _handle_renamed(PyArrayObject** old, const char* name_old,
 static PyObject* _optimization_inputs_known_keys_frozenset;
 //  Replace the kwargs to keep only those that are known. The unknown ones that
 //  are not null trigger an error. This is intended for forwards compatibility
+//
+//  keywords_extra is an optional list of Nkeywords_extra additional known keys.
+//  Some elements may be NULL
 static bool optimization_inputs_kwargs_delete_unknown(PyObject** kwargs,
-                                                      bool* need_decref_kwargs)
+                                                      bool* need_decref_kwargs,
+                                                      const char*const* keywords_extra,
+                                                      int Nkeywords_extra)
 {
     *need_decref_kwargs = false;
 
-    if(!PyDict_Check(*kwargs))
+    if(*kwargs == NULL || !PyDict_Check(*kwargs))
         return true;
 
     PyObject* kwargs_new = PyDict_New();
@@ -1521,6 +1526,11 @@ static bool optimization_inputs_kwargs_delete_unknown(PyObject** kwargs,
             Py_DECREF(kwargs_new);
             return false;
         }
+        for(int j=0; j<Nkeywords_extra && !contains; j++)
+            contains =
+                keywords_extra[j] != NULL &&
+                PyUnicode_Check(key) &&
+                0 == PyUnicode_CompareWithASCIIString(key, keywords_extra[j]);
         if(contains)
         {
             if(0 != PyDict_SetItem(kwargs_new, key, value))
@@ -1591,7 +1601,7 @@ PyObject* _optimize(optimizemode_t optimizemode,
         goto done;
     }
 
-    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs))
+    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs, NULL, 0))
         goto done;
 
     int calibration_object_height_n = -1;
@@ -2217,8 +2227,6 @@ static PyObject* state_index_generic(callback_state_index_t cb,
     OPTIMIZE_ARGUMENTS_OPTIONAL(ARG_DEFINE);
 
     bool need_decref_kwargs = false;
-    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs))
-        goto done;
 
     int i = -1;
 
@@ -2229,6 +2237,9 @@ static PyObject* state_index_generic(callback_state_index_t cb,
     int Nobservations_board = -1;
     int Nobservations_point = -1;
 
+    int calibration_object_height_n = -1;
+    int calibration_object_width_n  = -1;
+
     char* keywords[] = { (char*)argname,
                          "Ncameras_intrinsics",
                          "Ncameras_extrinsics",
@@ -2236,17 +2247,24 @@ static PyObject* state_index_generic(callback_state_index_t cb,
                          "Npoints",
                          "Nobservations_board",
                          "Nobservations_point",
+                         "calibration_object_width_n",
+                         "calibration_object_height_n",
                          OPTIMIZE_ARGUMENTS_REQUIRED(NAMELIST)
                          OPTIMIZE_ARGUMENTS_OPTIONAL(NAMELIST)
                          NULL};
 
+    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs,
+                                                  (const char*const*)keywords,
+                                                  (int)(sizeof(keywords)/sizeof(keywords[0]))))
+        goto done;
+
     // needs to be big-enough to store the largest-possible called_function
 #define CALLED_FUNCTION_BUFFER "123456789012345678901234567890123456789012345678901234567890"
     char arg_string[] =
         "i"
         "|$" // everything is kwarg-only and optional. I apply logic down the
              // line to get what I need
-        "iiiiii"
+        "iiiiiiii"
         OPTIMIZE_ARGUMENTS_REQUIRED(PARSECODE)
         OPTIMIZE_ARGUMENTS_OPTIONAL(PARSECODE)
         ":mrcal." CALLED_FUNCTION_BUFFER;
@@ -2272,6 +2290,8 @@ static PyObject* state_index_generic(callback_state_index_t cb,
                                          &Npoints,
                                          &Nobservations_board,
                                          &Nobservations_point,
+                                         &calibration_object_width_n,
+                                         &calibration_object_height_n,
                                          OPTIMIZE_ARGUMENTS_REQUIRED(PARSEARG)
                                          OPTIMIZE_ARGUMENTS_OPTIONAL(PARSEARG) NULL))
             goto done;
@@ -2290,6 +2310,8 @@ static PyObject* state_index_generic(callback_state_index_t cb,
                                          &Npoints,
                                          &Nobservations_board,
                                          &Nobservations_point,
+                                         &calibration_object_width_n,
+                                         &calibration_object_height_n,
                                          OPTIMIZE_ARGUMENTS_REQUIRED(PARSEARG)
                                          OPTIMIZE_ARGUMENTS_OPTIONAL(PARSEARG) NULL))
             goto done;
@@ -2330,12 +2352,10 @@ static PyObject* state_index_generic(callback_state_index_t cb,
     if(Nobservations_board < 0) Nobservations_board = IS_NULL(observations_board)    ? 0 : PyArray_DIMS(observations_board)    [0];
     if(Nobservations_point < 0) Nobservations_point = IS_NULL(observations_point)    ? 0 : PyArray_DIMS(observations_point)    [0];
 
-    int calibration_object_height_n = -1;
-    int calibration_object_width_n  = -1;
-    if( Nobservations_board > 0 )
+    if( Nobservations_board > 0 && !IS_NULL(observations_board) )
     {
-        calibration_object_height_n = PyArray_DIMS(observations_board)[1];
-        calibration_object_width_n  = PyArray_DIMS(observations_board)[2];
+        if(calibration_object_height_n < 0) calibration_object_height_n = PyArray_DIMS(observations_board)[1];
+        if(calibration_object_width_n  < 0) calibration_object_width_n  = PyArray_DIMS(observations_board)[2];
     }
 
 
@@ -2812,6 +2832,17 @@ static PyObject* num_intrinsics_optimization_params(PyObject* self, PyObject* ar
                                NULL);
 }
 
+// If we have board observations, some functions need to know the size of the
+// board. This comes from observations_board or from
+// calibration_object_width_n,calibration_object_height_n
+#define CHECK_BOARD_DIMENSIONS() do {                                   \
+    if(Nobservations_board > 0 &&                                       \
+       (calibration_object_width_n < 0 || calibration_object_height_n < 0)) \
+    {                                                                   \
+        BARF("Have Nobservations_board > 0, but the board dimensions are unknown. Pass observations_board or calibration_object_width_n,calibration_object_height_n"); \
+        return NULL;                                                    \
+    } } while(0)
+
 static PyObject* callback_measurement_index_boards(int i,
                                              int Ncameras_intrinsics,
                                              int Ncameras_extrinsics,
@@ -2909,6 +2940,8 @@ static PyObject* callback_measurement_index_points(int i,
                                              const mrcal_lensmodel_t* lensmodel,
                                              mrcal_problem_selections_t problem_selections)
 {
+    CHECK_BOARD_DIMENSIONS();
+
     int index =
         mrcal_measurement_index_points(i,
                                        Nobservations_board,
@@ -2946,6 +2979,8 @@ static PyObject* callback_measurement_index_points_triangulated(int i,
                                                           const mrcal_lensmodel_t* lensmodel,
                                                           mrcal_problem_selections_t problem_selections)
 {
+    CHECK_BOARD_DIMENSIONS();
+
     // VERY similar to callback_num_measurements_points_triangulated() and
     // callback_measurement_index_regularization() and maybe others. Please
     // consolidate
@@ -3093,6 +3128,8 @@ static PyObject* callback_measurement_index_regularization(int i,
                                                      const mrcal_lensmodel_t* lensmodel,
                                                      mrcal_problem_selections_t problem_selections)
 {
+    CHECK_BOARD_DIMENSIONS();
+
     // VERY similar to callback_num_measurements_points_triangulated(). Please
     // consolidate
     int N = 0;
@@ -3190,6 +3227,8 @@ static PyObject* callback_num_measurements(int i,
                                      const mrcal_lensmodel_t* lensmodel,
                                      mrcal_problem_selections_t problem_selections)
 {
+    CHECK_BOARD_DIMENSIONS();
+
 
 #if defined ENABLE_TRIANGULATED_WARNINGS && ENABLE_TRIANGULATED_WARNINGS
 #warning "triangulated-solve: add tests to the num_measurements_..., state_index_... ..."
@@ -3437,8 +3476,6 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
     PyArrayObject* b = NULL;
 
     bool need_decref_kwargs = false;
-    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs))
-        goto done;
 
     int Ncameras_intrinsics = -1;
     int Ncameras_extrinsics = -1;
@@ -3458,6 +3495,11 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
                          OPTIMIZE_ARGUMENTS_OPTIONAL(NAMELIST)
                          NULL};
 
+    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs,
+                                                  (const char*const*)keywords,
+                                                  (int)(sizeof(keywords)/sizeof(keywords[0]))))
+        goto done;
+
 #define UNPACK_STATE "unpack_state"
     char arg_string[] =
         "O&"
-- 
2.43.0


From 1a01b8e9443a2427646a8996ff70bfccd1a25bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 34/37] fix: traverse_sensor_links(): stop if the callback
 returns False, as documented

---
 mrcal-pywrap.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index a315d15..12f44a3 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -4263,6 +4263,7 @@ callback_sensor_link_C(const uint16_t idx_to, const uint16_t idx_from, void* coo
     PyObject* py_idx_to   = NULL;
     PyObject* py_idx_from = NULL;
     PyObject* result      = NULL;
+    bool      keep_going;
 
     py_idx_to   = PyLong_FromLong(idx_to);
     if(py_idx_to == NULL) goto done;
@@ -4282,8 +4283,10 @@ callback_sensor_link_C(const uint16_t idx_to, const uint16_t idx_from, void* coo
     if(result == NULL)
         return false;
 
+    // The callback can return False to indicate an error
+    keep_going = (result != Py_False);
     Py_DECREF(result);
-    return true;
+    return keep_going;
 }
 static
 PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
-- 
2.43.0


From 09b30689b26fd77a74211b88fafb81e3eb909300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 35/37] fix: ingest_packed_state() updates all the optimized
 variables

If only the core or only the distortions were being optimized, the intrinsics
were not updated. And points couldn't be ingested with Npoints_fixed==0
---
 mrcal/utils.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 02cc456..b687a7a 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -1183,38 +1183,42 @@ None
 
     ivar0 = mrcal.state_index_intrinsics(0, **optimization_inputs)
     if ivar0 is not None:
-        iunpacked0,iunpacked1 = None,None # everything by default
-
         lensmodel    = optimization_inputs['lensmodel']
         has_core     = mrcal.lensmodel_metadata_and_config(lensmodel)['has_core']
         Ncore        = 4 if has_core else 0
-        Ndistortions = mrcal.lensmodel_num_params(lensmodel) - Ncore
+        Nintrinsics  = mrcal.lensmodel_num_params(lensmodel)
+
+        # everything by default
+        iunpacked0,iunpacked1 = 0,Nintrinsics
 
         do_optimize_intrinsics_core        = optimization_inputs.get('do_optimize_intrinsics_core',        True)
         do_optimize_intrinsics_distortions = optimization_inputs.get('do_optimize_intrinsics_distortions', True)
         if not do_optimize_intrinsics_core:
             iunpacked0 = Ncore
         if not do_optimize_intrinsics_distortions:
-            iunpacked1 = -Ndistortions
+            iunpacked1 = Ncore
 
-        intrinsics[:, iunpacked0:iunpacked1].ravel()[:] = \
-            b[ ivar0:Nvars_intrinsics ]
+        # Assigning to x.ravel()[:] would write into a temporary copy if x isn't
+        # contiguous (if optimizing just the core or just the distortions for
+        # instance)
+        intrinsics[:, iunpacked0:iunpacked1] = \
+            b[ ivar0:ivar0+Nvars_intrinsics ].reshape(-1, iunpacked1-iunpacked0)
 
     ivar0 = mrcal.state_index_extrinsics(0, **optimization_inputs)
     if ivar0 is not None:
-        extrinsics.ravel()[:] = b[ivar0:ivar0+Nvars_extrinsics]
+        extrinsics[...] = b[ivar0:ivar0+Nvars_extrinsics].reshape(extrinsics.shape)
 
     ivar0 = mrcal.state_index_frames(0, **optimization_inputs)
     if ivar0 is not None:
-        frames.ravel()[:] = b[ivar0:ivar0+Nvars_frames]
+        frames[...] = b[ivar0:ivar0+Nvars_frames].reshape(frames.shape)
 
     ivar0 = mrcal.state_index_points(0, **optimization_inputs)
     if ivar0 is not None:
-        points.ravel()[:-Npoints_fixed*3] = b[ivar0:ivar0+Nvars_points]
+        points[:len(points)-Npoints_fixed] = b[ivar0:ivar0+Nvars_points].reshape(-1,3)
 
     ivar0 = mrcal.state_index_calobject_warp(**optimization_inputs)
     if ivar0 is not None:
-        calobject_warp.ravel()[:] = b[ivar0:ivar0+Nvars_calobject_warp]
+        calobject_warp[...] = b[ivar0:ivar0+Nvars_calobject_warp].reshape(calobject_warp.shape)
 
 
 def sorted_eig(M):
-- 
2.43.0


From df942aaea788bfd3d9a8d83b02d311aba3c7825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:45 +0000
Subject: [PATCH 36/37] fix: reject triangulated points observed more than once
 from the reference

Such observations have no baseline, and the optimizer dereferenced a NULL
pointer
---
 mrcal-pywrap.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 12f44a3..c97c431 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1356,6 +1356,7 @@ int fill_c_observations_point_triangulated(// output. I fill in the given arrays
 
     int ipoint_current = -1;
     int Npoints_in_this_set = 0;
+    int Npoints_in_this_set_at_reference = 0;
 
     // Needed for the unproject() below
     int                            Nintrinsics_state = 0;
@@ -1429,6 +1430,7 @@ int fill_c_observations_point_triangulated(// output. I fill in the given arrays
 
             ipoint_current = ipoint;
             Npoints_in_this_set = 1;
+            Npoints_in_this_set_at_reference = 0;
         }
         else
         {
@@ -1436,6 +1438,19 @@ int fill_c_observations_point_triangulated(// output. I fill in the given arrays
                 i);
             return -1;
         }
+
+        // Two observations from the reference have no baseline, and can't be
+        // triangulated. The optimizer assumes this never happens
+        if(icam_extrinsics < 0)
+        {
+            Npoints_in_this_set_at_reference++;
+            if(Npoints_in_this_set_at_reference > 1)
+            {
+                BARF("Error in indices_point_triangulated_camintrinsics_camextrinsics[%d]. At most one observation of each point can come from a camera at the reference (icam_extrinsics<0)",
+                     i);
+                return -1;
+            }
+        }
     }
 
     if(!_finish_triangulated_set(c_observations_point_triangulated,
-- 
2.43.0


From 8c238d1b93491c71675478281df933fe2ce24153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:38 +0000
Subject: [PATCH 37/37] fix: stereo_range() of an image truncated fractional
 disparities, and gave nonsense for negative ones

The dense C routine works with uint16 data only. Anything that uint16 can't represent now uses the sparse routine
---
 mrcal/stereo.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/mrcal/stereo.py b/mrcal/stereo.py
index 1efe69b..ab4d724 100644
--- a/mrcal/stereo.py
+++ b/mrcal/stereo.py
@@ -1236,6 +1236,8 @@ RETURNED VALUES
        (isinstance(disparity, np.ndarray) and disparity.dtype == np.int16):
         disparity_scaled_max = 0x7FFF
 
+    no_disparity_max = disparity_scaled_max is None and disparity_max is None
+
     if qrect0 is None:
         if disparity_scaled_min is None:
             if disparity_min is None:
@@ -1281,6 +1283,26 @@ RETURNED VALUES
         if np.any(disparity.shape - np.array((H,W),dtype=int)):
             raise Exception(f"qrect0 is None, so the given disparity and full rectified images MUST have the same dimensions. I have {disparity.shape=} and {models_rectified[0].imagersize()=}")
 
+        # The dense C routine processes uint16 data only. Anything that isn't
+        # representable as such (floating-point disparities, negative values,
+        # ...) goes through the sparse routine instead
+        def is_uint16(x):
+            return 0 <= x <= 0xFFFF and x == int(x)
+        if not (disparity.dtype in (np.uint8,np.uint16) or
+                (disparity.dtype == np.int16 and disparity_scaled_max <= 0x7FFF)) or \
+           not (is_uint16(disparity_scale)      and
+                is_uint16(disparity_scaled_min) and
+                is_uint16(disparity_scaled_max)):
+            disparity_min = disparity_scaled_min / disparity_scale
+            if no_disparity_max: disparity_max = np.finfo(float).max
+            else:                disparity_max = disparity_scaled_max / disparity_scale
+            qrect0 = np.ascontiguousarray( \
+                nps.mv( nps.cat( *np.meshgrid(np.arange(W,dtype=float),
+                                              np.arange(H,dtype=float))),
+                        0, -1))
+
+    if qrect0 is None:
+
         r =                                    \
             mrcal._mrcal_npsp._stereo_range_dense \
                 ( disparity_scaled     = disparity.astype(np.uint16),
-- 
2.43.0

