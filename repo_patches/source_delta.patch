From 945af657f909e2fbc7082cc4cabade8f145a83f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 01/39] fix: size the per-rib contact outputs in shell::resize

---
 src/shell.cc         | 1 +
 toolbox/src/shell.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/shell.cc b/src/shell.cc
index 0f17f9a..310d749 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -84,6 +84,7 @@ namespace enve
     this->m_out.clear();        this->m_out.reserve(200);
     this->m_candidates.clear(); this->m_candidates.reserve(200);
 
+    this->m_out.resize(size);
     this->m_candidates.resize(size);
     for (size_t i = 0; i < size; ++i)
       {this->m_candidates[i].reserve(200);}
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 0f17f9a..310d749 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -84,6 +84,7 @@ namespace enve
     this->m_out.clear();        this->m_out.reserve(200);
     this->m_candidates.clear(); this->m_candidates.reserve(200);
 
+    this->m_out.resize(size);
     this->m_candidates.resize(size);
     for (size_t i = 0; i < size; ++i)
       {this->m_candidates[i].reserve(200);}
-- 
2.43.0


From 614911a59d130fb4fed2b5f7216a71ad27b6c4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:52 +0000
Subject: [PATCH 02/39] fix: sum the rib areas, not the frictions, in
 shell::contactArea

---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 310d749..9a55867 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -731,7 +731,7 @@ namespace enve
   {
     area = 0.0;
     for (size_t i = 0; i < this->size(); ++i)
-      {area += this->m_out[i].friction;}
+      {area += this->m_out[i].area;}
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 310d749..9a55867 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -731,7 +731,7 @@ namespace enve
   {
     area = 0.0;
     for (size_t i = 0; i < this->size(); ++i)
-      {area += this->m_out[i].friction;}
+      {area += this->m_out[i].area;}
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 5f03e8b4c488463e498cfd548dd9819c7323dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 03/39] fix: average the rib depths in shell::contactDepth when
 the volume is negligible

---
 src/shell.cc         | 4 +++-
 toolbox/src/shell.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 9a55867..88ff256 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -685,7 +685,9 @@ namespace enve
     this->contactVolume(volume_sum);
     if (volume_sum < EPSILON_ENVE)
     {
-      depth = volume_sum / size;
+      for (size_t i = 0; i < size; ++i)
+        {depth += this->m_out[i].depth;}
+      depth /= size;
     }
     else
     {
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 9a55867..88ff256 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -685,7 +685,9 @@ namespace enve
     this->contactVolume(volume_sum);
     if (volume_sum < EPSILON_ENVE)
     {
-      depth = volume_sum / size;
+      for (size_t i = 0; i < size; ++i)
+        {depth += this->m_out[i].depth;}
+      depth /= size;
     }
     else
     {
-- 
2.43.0


From 0543f4696975d18772e5e2527d25f3e6aee7225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 04/39] fix: set the coordinates of a default constructed point
 to NaN as intended

---
 toolbox/src/point.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/point.cc b/toolbox/src/point.cc
index b75f576..e8abcb5 100644
--- a/toolbox/src/point.cc
+++ b/toolbox/src/point.cc
@@ -49,7 +49,7 @@ namespace acme
 
   point::point(void)
   {
-    this->Constant(QUIET_NAN);
+    this->setConstant(QUIET_NAN);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 725d0262868ae22591b22845d237c03866c871d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 05/39] fix: skip only the grazing triangle, not the following
 ones, in rib::envelopGeometric

---
 src/rib.cc         | 2 +-
 toolbox/src/rib.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index d3ecc4e..e2333d3 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -271,7 +271,7 @@ namespace enve
         // Check intersection
         segment_length_tmp = segment_tmp.length();
         if (t_b - t_a < EPSILON_ENVE && segment_length_tmp < EPSILON_ENVE)
-          {break;}
+          {continue;}
         else
           {int_bool = true;}
 
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index d3ecc4e..e2333d3 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -271,7 +271,7 @@ namespace enve
         // Check intersection
         segment_length_tmp = segment_tmp.length();
         if (t_b - t_a < EPSILON_ENVE && segment_length_tmp < EPSILON_ENVE)
-          {break;}
+          {continue;}
         else
           {int_bool = true;}
 
-- 
2.43.0


From d91ff9ffadc9f6e8f582f1f6c2d0740ba2427cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 06/39] fix: take the minor sector of a cut across the atan2
 branch cut in rib::envelopGeometric

---
 src/rib.cc         | 9 ++++++++-
 toolbox/src/rib.cc | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index e2333d3..d94d69b 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -268,6 +268,13 @@ namespace enve
         t_c = (t_a + t_b) / real(2.0);
         t_d = (t_b - t_a) / real(2.0);
 
+        // The cut subtends less than half a turn, also across the atan2 branch cut
+        if (t_d > PI / real(2.0))
+        {
+          t_c += PI;
+          t_d  = PI - t_d;
+        }
+
         // Check intersection
         segment_length_tmp = segment_tmp.length();
         if (t_b - t_a < EPSILON_ENVE && segment_length_tmp < EPSILON_ENVE)
@@ -283,7 +290,7 @@ namespace enve
               ));
 
         // Find area
-        section_area = radius * radius * t_d - r_a * r_b * std::sin(t_b - t_a) / real(2.0);
+        section_area = radius * radius * t_d - r_a * r_b * std::sin(real(2.0) * t_d) / real(2.0);
 
         // Store temporary results
         cos_t_c = std::cos(t_c);
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index e2333d3..d94d69b 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -268,6 +268,13 @@ namespace enve
         t_c = (t_a + t_b) / real(2.0);
         t_d = (t_b - t_a) / real(2.0);
 
+        // The cut subtends less than half a turn, also across the atan2 branch cut
+        if (t_d > PI / real(2.0))
+        {
+          t_c += PI;
+          t_d  = PI - t_d;
+        }
+
         // Check intersection
         segment_length_tmp = segment_tmp.length();
         if (t_b - t_a < EPSILON_ENVE && segment_length_tmp < EPSILON_ENVE)
@@ -283,7 +290,7 @@ namespace enve
               ));
 
         // Find area
-        section_area = radius * radius * t_d - r_a * r_b * std::sin(t_b - t_a) / real(2.0);
+        section_area = radius * radius * t_d - r_a * r_b * std::sin(real(2.0) * t_d) / real(2.0);
 
         // Store temporary results
         cos_t_c = std::cos(t_c);
-- 
2.43.0


From eb2d164cb3f5e8f780b76a6c0b9ac343e8d578e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 07/39] fix: no geometric contact when the cut encloses no
 volume in rib::envelopGeometric

---
 src/rib.cc         | 3 ++-
 toolbox/src/rib.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index d94d69b..30ef3ab 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -312,7 +312,8 @@ namespace enve
     }
 
     // Store output
-    if (int_bool && (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
+    if (int_bool && segment_volume_tot > real(0.0) &&
+        (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
     {
       out.point    = contact_point_tot    / segment_volume_tot;
       out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index d94d69b..30ef3ab 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -312,7 +312,8 @@ namespace enve
     }
 
     // Store output
-    if (int_bool && (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
+    if (int_bool && segment_volume_tot > real(0.0) &&
+        (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
     {
       out.point    = contact_point_tot    / segment_volume_tot;
       out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
-- 
2.43.0


From 65e609318d8c86832d089f6f95f2c63c9d5c77e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 08/39] fix: report contact of any rib, not only of the last
 one, in shell::setup on flat ground

---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 88ff256..98ff43d 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -496,7 +496,7 @@ namespace enve
     // Perform intersection on all ribs
     bool out = false;
     for (size_t i = 0; i < this->size(); ++i)
-      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]);}
+      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]) || out;}
     return out;
 
     #undef CMD
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 88ff256..98ff43d 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -496,7 +496,7 @@ namespace enve
     // Perform intersection on all ribs
     bool out = false;
     for (size_t i = 0; i < this->size(); ++i)
-      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]);}
+      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]) || out;}
     return out;
 
     #undef CMD
-- 
2.43.0


From cb5ac6b739d51050e52cd212ee3340a37e14191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 09/39] fix: enclose the whole shell width in its bounding box

---
 src/shell.cc         | 3 ++-
 toolbox/src/shell.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 98ff43d..a3fe023 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -417,7 +417,8 @@ namespace enve
   void
   shell::updateBBox(void)
   {
-    real  radius = this->m_shape->surfaceMaxRadius();
+    // Radius of the sphere enclosing the shell whatever its orientation
+    real  radius = std::hypot(this->m_shape->surfaceMaxRadius(), this->m_shape->surfaceMaxWidth());
     point origin(this->m_affine.translation());
     point extrema(radius, radius, radius);
     this->m_bbox->min() = origin - extrema;
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 98ff43d..a3fe023 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -417,7 +417,8 @@ namespace enve
   void
   shell::updateBBox(void)
   {
-    real  radius = this->m_shape->surfaceMaxRadius();
+    // Radius of the sphere enclosing the shell whatever its orientation
+    real  radius = std::hypot(this->m_shape->surfaceMaxRadius(), this->m_shape->surfaceMaxWidth());
     point origin(this->m_affine.translation());
     point extrema(radius, radius, radius);
     this->m_bbox->min() = origin - extrema;
-- 
2.43.0


From 0862ab7a093c2a2f76f22f14c3c6aba1bc6f6062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 10/39] fix: look up intersected triangles by position, not by
 their id

---
 src/mesh.cc         | 7 ++++---
 toolbox/src/mesh.cc | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index db7bf1c..734e728 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -517,9 +517,10 @@ namespace enve
       this->m_bboxes.clear();
       for (size_t i = 0; i < this->m_triangles.size(); ++i)
       {
-        this->m_bboxes.push_back(
-          std::make_shared<aabb const>(this->m_triangles[i]->bbox())
-        );
+        // The box identifies the triangle by its position in the mesh
+        aabb box(this->m_triangles[i]->bbox());
+        box.id() = integer(i);
+        this->m_bboxes.push_back(std::make_shared<aabb const>(box));
       }
     }
 
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index db7bf1c..734e728 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -517,9 +517,10 @@ namespace enve
       this->m_bboxes.clear();
       for (size_t i = 0; i < this->m_triangles.size(); ++i)
       {
-        this->m_bboxes.push_back(
-          std::make_shared<aabb const>(this->m_triangles[i]->bbox())
-        );
+        // The box identifies the triangle by its position in the mesh
+        aabb box(this->m_triangles[i]->bbox());
+        box.id() = integer(i);
+        this->m_bboxes.push_back(std::make_shared<aabb const>(box));
       }
     }
 
-- 
2.43.0


From d52c5454e0af14fa6f66b4e5029491d8dffb089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 11/39] fix: keep the distance of a point from a flat box
 defined

---
 toolbox/src/aabb.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/toolbox/src/aabb.cc b/toolbox/src/aabb.cc
index 5905b90..5431631 100644
--- a/toolbox/src/aabb.cc
+++ b/toolbox/src/aabb.cc
@@ -323,12 +323,9 @@ namespace acme
     point center((this->m_max + this->m_min) / real(2.0));
     point point_max_centered(this->m_max - center);
     point point_centered(point_in - center);
-    real  x_scale = std::abs(real(1.0) / point_max_centered.x());
-    real  y_scale = std::abs(real(1.0) / point_max_centered.y());
-    real  z_scale = std::abs(real(1.0) / point_max_centered.z());
-    real  dx      = std::max(real(0.0), std::abs(point_centered.x()) * x_scale - real(1.0)) / x_scale;
-    real  dy      = std::max(real(0.0), std::abs(point_centered.y()) * y_scale - real(1.0)) / y_scale;
-    real  dz      = std::max(real(0.0), std::abs(point_centered.z()) * z_scale - real(1.0)) / z_scale;
+    real  dx = std::max(real(0.0), std::abs(point_centered.x()) - std::abs(point_max_centered.x()));
+    real  dy = std::max(real(0.0), std::abs(point_centered.y()) - std::abs(point_max_centered.y()));
+    real  dz = std::max(real(0.0), std::abs(point_centered.z()) - std::abs(point_max_centered.z()));
     return std::sqrt(dx * dx + dy * dy + dz * dz);
   }
 
-- 
2.43.0


From 6822b9944681e5f269308dd16b78799a98ea485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:31 +0000
Subject: [PATCH 12/39] fix: size the lists of contact frames and relative
 angles

---
 src/shell.cc         | 8 ++++++--
 toolbox/src/shell.cc | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index a3fe023..03b6cb2 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -845,7 +845,9 @@ namespace enve
   )
     const
   {
-    for (size_t i = 0; i < this->size(); ++i)
+    size_t size = this->size();
+    pose.resize(size);
+    for (size_t i = 0; i < size; ++i)
       {this->contactPointAffine(i, pose[i]);}
   }
 
@@ -887,7 +889,9 @@ namespace enve
   )
     const
   {
-    for (size_t i = 0; i < this->size(); ++i)
+    size_t size = this->size();
+    angles.resize(size);
+    for (size_t i = 0; i < size; ++i)
       {this->relativeAngles(i, angles[i]);}
   }
 
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index a3fe023..03b6cb2 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -845,7 +845,9 @@ namespace enve
   )
     const
   {
-    for (size_t i = 0; i < this->size(); ++i)
+    size_t size = this->size();
+    pose.resize(size);
+    for (size_t i = 0; i < size; ++i)
       {this->contactPointAffine(i, pose[i]);}
   }
 
@@ -887,7 +889,9 @@ namespace enve
   )
     const
   {
-    for (size_t i = 0; i < this->size(); ++i)
+    size_t size = this->size();
+    angles.resize(size);
+    for (size_t i = 0; i < size; ++i)
       {this->relativeAngles(i, angles[i]);}
   }
 
-- 
2.43.0


From 9f017f091c32755123b23265f42a22fc56df7eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 13/39] fix: let queries of an empty AABB tree find nothing
 instead of dereferencing null

---
 toolbox/src/AABBtree.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/src/AABBtree.cc b/toolbox/src/AABBtree.cc
index a7aee91..219fad1 100644
--- a/toolbox/src/AABBtree.cc
+++ b/toolbox/src/AABBtree.cc
@@ -218,6 +218,8 @@ namespace acme
   )
     const
   {
+    if (this->isEmpty() || tree.isEmpty())
+      return;
     if (!tree.m_ptrbox->intersects(*this->m_ptrbox))
       return;
     integer icase = (this->m_children.empty() ? 0 : 1) +
@@ -271,6 +273,7 @@ namespace acme
     AABBtree const & tree,
     real             distance)
   {
+    if (tree.isEmpty()) {return distance;}
     AABBtree::vecptr const & tree_children = tree.m_children;
     if (tree_children.empty())
     {
@@ -297,6 +300,7 @@ namespace acme
     aabb::vecptr       & candidate_list
   )
   {
+    if (tree.isEmpty()) {return;}
     AABBtree::vecptr const & tree_children = tree.m_children;
     real dst= tree.m_ptrbox->centerDistance(query);
     if (dst <= distance)
-- 
2.43.0


From 059ce1d91ef508db89e25da8dbe410cf804062f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 14/39] fix: keep the AABB tree in step with the triangles in
 mesh::copy and mesh::clear

---
 src/mesh.cc         | 2 ++
 toolbox/src/mesh.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index 734e728..b9c68ef 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -107,6 +107,7 @@ namespace enve
     )
     {
       this->m_triangles = mesh_obj.m_triangles;
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -120,6 +121,7 @@ namespace enve
           {this->m_triangles[i].reset();}
       }
       this->m_triangles.clear();
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 734e728..b9c68ef 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -107,6 +107,7 @@ namespace enve
     )
     {
       this->m_triangles = mesh_obj.m_triangles;
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -120,6 +121,7 @@ namespace enve
           {this->m_triangles[i].reset();}
       }
       this->m_triangles.clear();
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From e92ae6adab7fe2d7667dc1d6cf0d70c2e71beaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 15/39] fix: copy the id in triangleground::copy

---
 src/triangleground.cc         | 1 +
 toolbox/src/triangleground.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/triangleground.cc b/src/triangleground.cc
index 92846d4..84cf7f3 100644
--- a/src/triangleground.cc
+++ b/src/triangleground.cc
@@ -148,6 +148,7 @@ namespace enve
   )
   {
     this->triangle::operator=(triangleground_obj);
+    this->m_id       = triangleground_obj.m_id;
     this->m_friction = triangleground_obj.m_friction;
     this->m_normal   = triangleground_obj.m_normal;
     this->m_bbox     = triangleground_obj.m_bbox;
diff --git a/toolbox/src/triangleground.cc b/toolbox/src/triangleground.cc
index 92846d4..84cf7f3 100644
--- a/toolbox/src/triangleground.cc
+++ b/toolbox/src/triangleground.cc
@@ -148,6 +148,7 @@ namespace enve
   )
   {
     this->triangle::operator=(triangleground_obj);
+    this->m_id       = triangleground_obj.m_id;
     this->m_friction = triangleground_obj.m_friction;
     this->m_normal   = triangleground_obj.m_normal;
     this->m_bbox     = triangleground_obj.m_bbox;
-- 
2.43.0


From a20276473c28f0122d447683a6d18df1da23d8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 16/39] fix: copy the lateral position in rib::copy

---
 src/rib.cc         | 1 +
 toolbox/src/rib.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/rib.cc b/src/rib.cc
index 30ef3ab..fb46e9d 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -84,6 +84,7 @@ namespace enve
   {
     this->disk::operator=(rib_obj);
     this->m_id    = rib_obj.m_id;
+    this->m_y     = rib_obj.m_y;
     this->m_width = rib_obj.m_width;
     this->m_angle = rib_obj.m_angle;
   }
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index 30ef3ab..fb46e9d 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -84,6 +84,7 @@ namespace enve
   {
     this->disk::operator=(rib_obj);
     this->m_id    = rib_obj.m_id;
+    this->m_y     = rib_obj.m_y;
     this->m_width = rib_obj.m_width;
     this->m_angle = rib_obj.m_angle;
   }
-- 
2.43.0


From 6a97c77423a9134677aeb6ce0716e8beeb549937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 17/39] fix: refuse mesh files naming a missing node

The element indices were only checked against zero, so that an index beyond the
last node read outside of the nodes vector.
---
 src/mesh.cc         | 12 ++++++++++++
 toolbox/src/mesh.cc | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index b9c68ef..18344aa 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -306,10 +306,16 @@ namespace enve
           i_friction   = real(std::stod(s_node[3]));
           ENVE_ASSERT(i_element[0] >= integer(0),
             CMD "element 0 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index exceeds the number of nodes.");
           ENVE_ASSERT(i_element[1] >= integer(0),
             CMD "element 1 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index exceeds the number of nodes.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index exceeds the number of nodes.");
           ENVE_ASSERT(i_friction >= real(0.0),
             CMD "element friction cannot be negative.");
 
@@ -422,10 +428,16 @@ namespace enve
           i_element[2] = std::stoi(s_node[2]) - 1;
           ENVE_ASSERT(i_element[0] >= integer(0),
             CMD "element 0 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index exceeds the number of nodes.");
           ENVE_ASSERT(i_element[1] >= integer(0),
             CMD "element 1 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index exceeds the number of nodes.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index exceeds the number of nodes.");
 
           // Create a shared pointer for the last triangle
           this->m_triangles.push_back(
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index b9c68ef..18344aa 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -306,10 +306,16 @@ namespace enve
           i_friction   = real(std::stod(s_node[3]));
           ENVE_ASSERT(i_element[0] >= integer(0),
             CMD "element 0 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index exceeds the number of nodes.");
           ENVE_ASSERT(i_element[1] >= integer(0),
             CMD "element 1 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index exceeds the number of nodes.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index exceeds the number of nodes.");
           ENVE_ASSERT(i_friction >= real(0.0),
             CMD "element friction cannot be negative.");
 
@@ -422,10 +428,16 @@ namespace enve
           i_element[2] = std::stoi(s_node[2]) - 1;
           ENVE_ASSERT(i_element[0] >= integer(0),
             CMD "element 0 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index exceeds the number of nodes.");
           ENVE_ASSERT(i_element[1] >= integer(0),
             CMD "element 1 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index exceeds the number of nodes.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index exceeds the number of nodes.");
 
           // Create a shared pointer for the last triangle
           this->m_triangles.push_back(
-- 
2.43.0


From f6f34cf6c8eee988b4eb29536eaea4537ff27be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 18/39] fix: skip empty lines of *.rdf files

firstToken() strips blanks and carriage returns, so that the first token of an
empty line is empty: the line was parsed as a node or element and refused.
---
 src/mesh.cc         | 2 +-
 toolbox/src/mesh.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index 18344aa..18ecd2a 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -275,7 +275,7 @@ namespace enve
           // Treated as a sigle-line comment
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#')
         {
           // Check comments or empty lines
           continue;
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 18344aa..18ecd2a 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -275,7 +275,7 @@ namespace enve
           // Treated as a sigle-line comment
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#')
         {
           // Check comments or empty lines
           continue;
-- 
2.43.0


From b1d8862bc5db332a530ca35b691b8c6cd48f258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 19/39] fix: loading a mesh file replaces the previous content

The new triangles were appended to the old ones and the safety check then failed,
leaving the triangles out of step with the tree.
---
 src/mesh.cc         | 2 ++
 toolbox/src/mesh.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index 18ecd2a..035ec18 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -241,6 +241,7 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
+      this->clear();
       this->m_triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
@@ -391,6 +392,7 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
+      this->clear();
       this->m_triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 18ecd2a..035ec18 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -241,6 +241,7 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
+      this->clear();
       this->m_triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
@@ -391,6 +392,7 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
+      this->clear();
       this->m_triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
-- 
2.43.0


From c4800af2a72281d0975822d45be301a5e35910ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:33 +0000
Subject: [PATCH 20/39] fix: a ray starting on a plane intersects it

Intersection(ray, plane, point), hence also ray/disk, missed the origin, unlike the ray/triangle and segment/plane functions.
---
 toolbox/src/intersection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 01aa3d3..cda74b7 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2509,7 +2509,7 @@ namespace acme
     if (std::abs(det) > tolerance)
     {
       real t = -(origin - plane_in.origin()).dot(plane_in.normal()) / det;
-      if (t > tolerance)
+      if (t >= real(0.0) - tolerance)
       {
         point_out = origin + t * direction;
         return true;
-- 
2.43.0


From 3143745704ec9c294975508b92a013c36a19a143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:33 +0000
Subject: [PATCH 21/39] fix: plane/plane intersection with non-unit normals

The unit normals were combined with the distances of the plane equations with the original normals.
---
 toolbox/src/intersection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index cda74b7..9412dda 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2284,8 +2284,8 @@ namespace acme
   {
     vec3 normal0(plane0_in.normal().normalized());
     vec3 normal1(plane1_in.normal().normalized());
-    real d0 = -plane0_in.d();
-    real d1 = -plane1_in.d();
+    real d0 = normal0.dot(plane0_in.origin());
+    real d1 = normal1.dot(plane1_in.origin());
 
     vec3 direction = normal0.cross(normal1);
     real dot       = normal0.dot(normal1);
-- 
2.43.0


From f668892d40604eaa886bd124d3ff8cc58d1e9475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:33 +0000
Subject: [PATCH 22/39] fix: segment/ball intersection with segments of any
 length

The quadratic equation assumed a unit direction while the parameter was cut to [0, 1] of the whole segment.
---
 toolbox/src/intersection.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 9412dda..48dcb69 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2787,14 +2787,15 @@ namespace acme
     vec3 origin(segment_in.vertex(0));
     vec3 direction(segment_in.toVector());
     vec3 diff(origin - ball_in.center());
+    real a2    = direction.dot(direction);
     real a0    = diff.dot(diff) - ball_in.radius() * ball_in.radius();
     real a1    = direction.dot(diff);
-    real discr = a1 * a1 - a0;
+    real discr = a1 * a1 - a0 * a2;
     if (discr > tolerance)
     {
       real root = std::sqrt(discr);
-      real t0   = -a1 - root;
-      real t1   = -a1 + root;
+      real t0   = (-a1 - root) / a2;
+      real t1   = (-a1 + root) / a2;
       if ((t0 < real(0.0) && t1 < real(0.0)) || (t0 > real(1.0) && t1 > real(1.0)))
         {return false;}
       t0 = std::max(t0, real(0.0));
-- 
2.43.0


From ff9a2ddf5a9dcb7798db39228563463b9c353657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 23/39] fix: disk perimeter and area were exchanged

---
 toolbox/src/disk.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/disk.cc b/toolbox/src/disk.cc
index 8b78724..ee4b409 100644
--- a/toolbox/src/disk.cc
+++ b/toolbox/src/disk.cc
@@ -193,7 +193,7 @@ namespace acme
   disk::perimeter(void)
     const
   {
-    return PI * this->m_radius * this->m_radius;
+    return real(2.0) * PI * this->m_radius;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -202,7 +202,7 @@ namespace acme
   disk::area(void)
     const
   {
-    return real(2.0) * PI * this->m_radius;
+    return PI * this->m_radius * this->m_radius;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 5c9c9e7ded51038509b08782d89fdfbdc50fd8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 24/39] fix: a line is orthogonal to a plane when parallel to
 its normal

---
 toolbox/src/orthogonal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/orthogonal.cc b/toolbox/src/orthogonal.cc
index 8af59fa..d36c7df 100644
--- a/toolbox/src/orthogonal.cc
+++ b/toolbox/src/orthogonal.cc
@@ -512,7 +512,7 @@ namespace acme
     real          tolerance
   )
   {
-    return IsOrthogonal(line_in.direction(), plane_in.normal(), tolerance);
+    return IsParallel(line_in.direction(), plane_in.normal(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 87f8b7a1b5686e60d0c2c4ee32d403b00c109b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 25/39] fix: collinear rays have parallel directions

The direction of the second ray was compared with itself.
---
 toolbox/src/collinear.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collinear.cc b/toolbox/src/collinear.cc
index d9f0ee7..978b13a 100644
--- a/toolbox/src/collinear.cc
+++ b/toolbox/src/collinear.cc
@@ -160,7 +160,7 @@ namespace acme
     real        tolerance)
   {
     return IsParallel(ray0_in.direction(), ray0_in.origin()-ray1_in.origin(), tolerance) &&
-           IsParallel(ray1_in.direction(), ray1_in.direction(), tolerance);
+           IsParallel(ray0_in.direction(), ray1_in.direction(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From ece5c1cad77d9e18f0989577e77f1a80b165e96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 26/39] fix: distance from a plane with non-unit normal

---
 toolbox/src/plane.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/plane.cc b/toolbox/src/plane.cc
index 954b217..ef5b77f 100644
--- a/toolbox/src/plane.cc
+++ b/toolbox/src/plane.cc
@@ -189,7 +189,7 @@ namespace acme
   )
     const
   {
-    return (point_in - this->m_origin).dot(this->m_normal);
+    return (point_in - this->m_origin).dot(this->unitNormal());
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From a28359a22c2b1e521a5e213d2530b9107566803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 27/39] fix: a triangle with collinear vertices is degenerated
 to a segment

---
 toolbox/src/triangle.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/toolbox/src/triangle.cc b/toolbox/src/triangle.cc
index 9f4439c..d32c6b3 100644
--- a/toolbox/src/triangle.cc
+++ b/toolbox/src/triangle.cc
@@ -333,9 +333,13 @@ namespace acme
   )
     const
   {
-    return IsApprox((this->m_vertex[0] - this->m_vertex[1]).norm(), real(0.0), tolerance) ||
-           IsApprox((this->m_vertex[1] - this->m_vertex[2]).norm(), real(0.0), tolerance) ||
-           IsApprox((this->m_vertex[2] - this->m_vertex[0]).norm(), real(0.0), tolerance);
+    real length0 = (this->m_vertex[0] - this->m_vertex[1]).norm();
+    real length1 = (this->m_vertex[1] - this->m_vertex[2]).norm();
+    real length2 = (this->m_vertex[2] - this->m_vertex[0]).norm();
+    return IsApprox(length0, real(0.0), tolerance) ||
+           IsApprox(length1, real(0.0), tolerance) ||
+           IsApprox(length2, real(0.0), tolerance) ||
+           IsApprox(real(2.0) * this->area() / std::max(length0, std::max(length1, length2)), real(0.0), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From a7c07f2bc7fd991f5a89513d5afaaa02071210a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 28/39] fix: removing entities from a collection

std::remove_if alone leaves the size unchanged and moved-from pointers at the end.
---
 toolbox/src/collection.cc | 88 +++++++++++++++++++++++++++------------
 1 file changed, 62 insertions(+), 26 deletions(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index d1efa19..3488ed6 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -195,10 +195,13 @@ namespace acme
   void
   collection::removeNone(void)
   {
-    std::remove_if(
-      this->m_entities.begin(),
-      this->m_entities.end(),
-      [] (entity::ptr & entity) {return entity->isNone();}
+    this->m_entities.erase(
+      std::remove_if(
+        this->m_entities.begin(),
+        this->m_entities.end(),
+        [] (entity::ptr & entity) {return entity->isNone();}
+      ),
+      this->m_entities.end()
     );
   }
 
@@ -261,11 +264,14 @@ namespace acme
   void
   collection::removePoint(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isPoint();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -327,11 +333,14 @@ namespace acme
   void
   collection::removeLine(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isLine();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -393,11 +402,14 @@ namespace acme
   void
   collection::removeRay(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isRay();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -458,11 +470,14 @@ namespace acme
   void
   collection::removePlane(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isPlane();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -524,11 +539,14 @@ namespace acme
   void
   collection::removeSegment(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isSegment();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -590,11 +608,14 @@ namespace acme
   void
   collection::removeTriangle(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isTriangle();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -656,11 +677,14 @@ namespace acme
   void
   collection::removeDisk(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isDisk();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -722,11 +746,14 @@ namespace acme
   void
   collection::removeBall(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isBall();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -795,11 +822,14 @@ namespace acme
     real tolerance
   )
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [tolerance](entity::ptr & entity){return entity->isDegenerated(tolerance);}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -863,11 +893,14 @@ namespace acme
   void
   collection::removeClampable(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isClampable();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -929,11 +962,14 @@ namespace acme
   void
   collection::removeNonClampable(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isNonClampable();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 46e723559cabc7700aa136627158d72e85038216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 29/39] fix: collection::areSegment() tested for balls

---
 toolbox/src/collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index 3488ed6..62b7250 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -517,7 +517,7 @@ namespace acme
   {
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isBall())
+      if (!this->m_entities[i]->isSegment())
         {return false;}
     }
     return true;
-- 
2.43.0


From 6a85a8fb03d06a38d4540e5aaad29e128da2c784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 30/39] fix: collection::containDegenerated() tested all
 entities

---
 toolbox/src/collection.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index 62b7250..77a22cb 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -781,10 +781,10 @@ namespace acme
   {
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isDegenerated(tolerance))
-        {return false;}
+      if (this->m_entities[i]->isDegenerated(tolerance))
+        {return true;}
     }
-    return true;
+    return false;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 378690b2d19e0bed9c4f7d970cdf43dd9f9a9a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 31/39] fix: collection::countNonClampable() counted the others

---
 toolbox/src/collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index 77a22cb..f857470 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -981,7 +981,7 @@ namespace acme
     integer count = 0;
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isNonClampable())
+      if (this->m_entities[i]->isNonClampable())
         {++count;}
     }
     return count;
-- 
2.43.0


From f5666512bad4be1f85bed1f4061469ff48b3a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 32/39] fix: intersection of a plane and a disk given as
 entities

The output segment was never allocated.
---
 toolbox/src/intersection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 48dcb69..3331781 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -837,7 +837,8 @@ namespace acme
         break;
 
       case 508:
-        collide = Intersection(
+        entity_out = new segment();
+        collide    = Intersection(
           *dynamic_cast<plane const *>(entity0_in),
           *dynamic_cast<disk const *>(entity1_in),
           *dynamic_cast<segment *>(entity_out),
-- 
2.43.0


From 359d697d914e647f196f895e34350363f1f82e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 33/39] fix: intersection of a triangle and its plane is the
 triangle

Given as entities in this order, the pair had no intersection.
---
 toolbox/src/intersection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 3331781..ba56618 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -556,11 +556,11 @@ namespace acme
         break;
 
       case 705:
-        entity_out = new segment();
+        entity_out = new triangle();
         collide    = Intersection(
           *dynamic_cast<plane const *>(entity1_in),
           *dynamic_cast<triangle const *>(entity0_in),
-          *dynamic_cast<segment *>(entity_out),
+          *dynamic_cast<triangle *>(entity_out),
           tolerance);
         break;
 
-- 
2.43.0


From ef5bfdd777f693b45d6f6e009a5708113fa2363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 34/39] fix: collinear rays given as entities may share nothing

The second output was deleted and an exception thrown instead of returning none.
---
 toolbox/src/intersection.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index ba56618..df4a478 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -253,12 +253,6 @@ namespace acme
           *dynamic_cast<ray const *>(entity1_in),
           *dynamic_cast<segment *>(entity_out),
           tolerance);
-        if (!collide)
-          {delete entity_out;}
-        else
-          {break;}
-
-        ACME_ERROR(CMD "exception not handled (ray/ray intersection).")
         break;
 
       case 406:
-- 
2.43.0


From 75a49e4bf9456dc56782ce148a8844d57bd19f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 35/39] fix: skew lines, rays and segments given as entities
 share nothing

Neither collinear nor coplanar, they were intersected as if they were coplanar.
---
 toolbox/src/intersection.cc | 89 +++++--------------------------------
 1 file changed, 11 insertions(+), 78 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index df4a478..6049e0d 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -653,26 +653,22 @@ namespace acme
       switch (slide)
       {
 
-        // - - - - - - - - - - - - - - LINE - - - - - - - - - - - - - -
+        // - - - - - - - - - - - - - - SKEW - - - - - - - - - - - - - -
 
       case 303:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity0_in),
-          *dynamic_cast<line const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 304:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity0_in),
-          *dynamic_cast<ray const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
+      case 306:
+      case 403:
+      case 404:
+      case 406:
+      case 603:
+      case 604:
+      case 606:
+        collide = false;
         break;
 
+        // - - - - - - - - - - - - - - LINE - - - - - - - - - - - - - -
+
       case 305:
         entity_out = new point();
         collide    = Intersection(
@@ -682,15 +678,6 @@ namespace acme
           tolerance);
         break;
 
-      case 306:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity0_in),
-          *dynamic_cast<segment const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 307:
         entity_out = new point();
         collide    = Intersection(
@@ -720,24 +707,6 @@ namespace acme
 
         // - - - - - - - - - - - - - - RAY - - - - - - - - - - - - - -
 
-      case 403:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity1_in),
-          *dynamic_cast<ray const *>(entity0_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
-      case 404:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<ray const *>(entity0_in),
-          *dynamic_cast<ray const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 405:
         entity_out = new point();
         collide    = Intersection(
@@ -747,15 +716,6 @@ namespace acme
           tolerance);
         break;
 
-      case 406:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<ray const *>(entity0_in),
-          *dynamic_cast<segment const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 407:
         entity_out = new point();
         collide    = Intersection(
@@ -850,24 +810,6 @@ namespace acme
 
         // - - - - - - - - - - - - - - SEGMENT - - - - - - - - - - - - - -
 
-      case 603:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity1_in),
-          *dynamic_cast<segment const *>(entity0_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
-      case 604:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<ray const *>(entity1_in),
-          *dynamic_cast<segment const *>(entity0_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 605:
         entity_out = new point();
         collide    = Intersection(
@@ -877,15 +819,6 @@ namespace acme
           tolerance);
         break;
 
-      case 606:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<segment const *>(entity0_in),
-          *dynamic_cast<segment const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 607:
         entity_out = new point();
         collide    = Intersection(
-- 
2.43.0


From d12e27bca56dd22a862b5e7e0fe3d0be5dc6e9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:21 +0000
Subject: [PATCH 36/39] fix: a line close to a vertex of a coplanar triangle

Three edges are crossed then; the two points on the vertex were compared
relative to their distance from the coordinate origin, and the function
threw when that origin was near.
---
 toolbox/src/intersection.cc | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 6049e0d..9e781f8 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -1887,28 +1887,21 @@ namespace acme
     }
     else if (bool0 && bool1 && bool2)
     {
-      if (point0.isApprox(point1, tolerance))
+      // Through a vertex: two points are the same, keep the farthest ones
+      real dist01 = (point0 - point1).squaredNorm();
+      real dist12 = (point1 - point2).squaredNorm();
+      real dist20 = (point2 - point0).squaredNorm();
+      if (dist12 >= dist01 && dist12 >= dist20)
       {
         segment_out.vertex(0) = point1;
         segment_out.vertex(1) = point2;
-        return true;
-      }
-      else if (point1.isApprox(point2, tolerance))
-      {
-        segment_out.vertex(0) = point0;
-        segment_out.vertex(1) = point1;
-        return true;
-      }
-      else if (point0.isApprox(point2, tolerance))
-      {
-        segment_out.vertex(0) = point0;
-        segment_out.vertex(1) = point1;
-        return true;
       }
       else
       {
-        ACME_ERROR(CMD "exception not handled.")
+        segment_out.vertex(0) = point0;
+        segment_out.vertex(1) = dist01 >= dist20 ? point1 : point2;
       }
+      return true;
     }
     else
     {
-- 
2.43.0


From 43918a49ec8e734748f669c3ab08aca737257fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:24 +0000
Subject: [PATCH 37/39] fix: triangle vertices and edges of negative index are
 refused

---
 toolbox/src/triangle.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toolbox/src/triangle.cc b/toolbox/src/triangle.cc
index d32c6b3..25b9e81 100644
--- a/toolbox/src/triangle.cc
+++ b/toolbox/src/triangle.cc
@@ -114,7 +114,7 @@ namespace acme
   {
     #define CMD "acme::triangle::vertex(): "
 
-    ACME_ASSERT(i < 3,
+    ACME_ASSERT(i >= 0 && i < 3,
       CMD "index out of bounds [0,2].")
     return this->m_vertex[i];
 
@@ -130,7 +130,7 @@ namespace acme
   {
     #define CMD "acme::triangle::vertex(): "
 
-    ACME_ASSERT(i < 3,
+    ACME_ASSERT(i >= 0 && i < 3,
       CMD "index out of bounds [0,2].")
     return this->m_vertex[i];
 
@@ -147,7 +147,7 @@ namespace acme
   {
     #define CMD "acme::triangle::operator[]: "
 
-    ACME_ASSERT(i < 3,
+    ACME_ASSERT(i >= 0 && i < 3,
       CMD "index out of bounds [0,2].")
     return this->m_vertex[i];
 
@@ -163,7 +163,7 @@ namespace acme
   {
     #define CMD "acme::triangle::operator[]: "
 
-    ACME_ASSERT(i < 3,
+    ACME_ASSERT(i >= 0 && i < 3,
       CMD "index out of bounds [0,2].")
     return this->m_vertex[i];
 
@@ -189,7 +189,7 @@ namespace acme
   {
     #define CMD "acme::triangle::edge(): "
 
-    ACME_ASSERT(i < 3,
+    ACME_ASSERT(i >= 0 && i < 3,
       CMD "index out of bounds [0,2].")
     if (i == 0)
       {return segment(this->m_vertex[0], this->m_vertex[1]);}
-- 
2.43.0


From a923aa1be16e8c4bd2c94592f9b6e3c59d112782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:24 +0000
Subject: [PATCH 38/39] fix: grounds are compared within the given tolerance

---
 src/flat.cc                   | 2 +-
 src/triangleground.cc         | 2 +-
 toolbox/src/flat.cc           | 2 +-
 toolbox/src/triangleground.cc | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/flat.cc b/src/flat.cc
index b09581b..fec3f81 100644
--- a/src/flat.cc
+++ b/src/flat.cc
@@ -146,7 +146,7 @@ namespace enve
     )
       const
     {
-      return this->plane::isApprox(flat_bj) &&
+      return this->plane::isApprox(flat_bj, tolerance) &&
              IsApprox(this->m_friction, flat_bj.m_friction, tolerance);
     }
 
diff --git a/src/triangleground.cc b/src/triangleground.cc
index 84cf7f3..a815491 100644
--- a/src/triangleground.cc
+++ b/src/triangleground.cc
@@ -163,7 +163,7 @@ namespace enve
   )
     const
   {
-    return this->triangle::isApprox(triangleground_obj) &&
+    return this->triangle::isApprox(triangleground_obj, tolerance) &&
            IsApprox(this->m_friction, triangleground_obj.m_friction, tolerance);
   }
 
diff --git a/toolbox/src/flat.cc b/toolbox/src/flat.cc
index b09581b..fec3f81 100644
--- a/toolbox/src/flat.cc
+++ b/toolbox/src/flat.cc
@@ -146,7 +146,7 @@ namespace enve
     )
       const
     {
-      return this->plane::isApprox(flat_bj) &&
+      return this->plane::isApprox(flat_bj, tolerance) &&
              IsApprox(this->m_friction, flat_bj.m_friction, tolerance);
     }
 
diff --git a/toolbox/src/triangleground.cc b/toolbox/src/triangleground.cc
index 84cf7f3..a815491 100644
--- a/toolbox/src/triangleground.cc
+++ b/toolbox/src/triangleground.cc
@@ -163,7 +163,7 @@ namespace enve
   )
     const
   {
-    return this->triangle::isApprox(triangleground_obj) &&
+    return this->triangle::isApprox(triangleground_obj, tolerance) &&
            IsApprox(this->m_friction, triangleground_obj.m_friction, tolerance);
   }
 
-- 
2.43.0


From 2fbae6282ab8e65fcb41714435b5038af9025569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:36 +0000
Subject: [PATCH 39/39] fix: coplanar triangles whose edges cross

---
 toolbox/src/intersection.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 9e781f8..542213a 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -1787,6 +1787,16 @@ namespace acme
     if (!IsCoplanar(triangle0_in, triangle1_in, tolerance)) {
       return Intersection(triangle0_in, triangle1_in, DUMMY_SEGMENT, tolerance);
     }
+    // Coplanar triangles may also cross each other without containing any vertex
+    point tmp_point;
+    for (integer i = 0; i < integer(3); ++i)
+    {
+      for (integer j = 0; j < integer(3); ++j)
+      {
+        if (Intersection(triangle0_in.edge(i), triangle1_in.edge(j), tmp_point, tolerance))
+          {return true;}
+      }
+    }
     return triangle0_in.isInside(triangle1_in.vertex(0), tolerance) ||
            triangle0_in.isInside(triangle1_in.vertex(1), tolerance) ||
            triangle0_in.isInside(triangle1_in.vertex(2), tolerance) ||
-- 
2.43.0

