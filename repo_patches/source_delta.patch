From 5eb172105ca329a492859a7e66ff18790c44a2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:13 +0000
Subject: [PATCH 01/31] fix: invert_matrix pivots and reports singular matrices

---
 apps/micromechanics/EVPFFT/src/math_functions.h     | 13 +++++++++++++
 .../LS-EVPFFT-J2/src/math_functions.h               | 13 +++++++++++++
 apps/micromechanics/LS-EVPFFT/src/math_functions.h  | 13 +++++++++++++
 .../micromechanics/LSNP-EVPFFT/src/math_functions.h | 13 +++++++++++++
 4 files changed, 52 insertions(+)

diff --git a/apps/micromechanics/EVPFFT/src/math_functions.h b/apps/micromechanics/EVPFFT/src/math_functions.h
index 3678015..ca08ff9 100644
--- a/apps/micromechanics/EVPFFT/src/math_functions.h
+++ b/apps/micromechanics/EVPFFT/src/math_functions.h
@@ -46,8 +46,21 @@ int invert_matrix(double *matrix)
 
     // Perform Gauss-Jordan elimination
     for (int i = 0; i < n; i++) {
+        // Find the pivot row
+        int pivotRow = i;
+        for (int j = i + 1; j < n; j++) {
+            if (fabs(*(matrix + j * n + i)) > fabs(*(matrix + pivotRow * n + i))) {
+                pivotRow = j;
+            }
+        }
+        if (pivotRow != i) {
+            swap_rows(matrix, i, pivotRow, n);
+            swap_rows(identity, i, pivotRow, n);
+        }
+
         if (*(matrix + i * n + i) == 0) {
             //printf("Error: Matrix is not invertible.\n");
+            error_flag = 1;
             return error_flag;
         }
 
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/math_functions.h b/apps/micromechanics/LS-EVPFFT-J2/src/math_functions.h
index 3eb51cc..dd1c8bf 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/math_functions.h
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/math_functions.h
@@ -46,8 +46,21 @@ int invert_matrix(double *matrix)
 
     // Perform Gauss-Jordan elimination
     for (int i = 0; i < n; i++) {
+        // Find the pivot row
+        int pivotRow = i;
+        for (int j = i + 1; j < n; j++) {
+            if (fabs(*(matrix + j * n + i)) > fabs(*(matrix + pivotRow * n + i))) {
+                pivotRow = j;
+            }
+        }
+        if (pivotRow != i) {
+            swap_rows(matrix, i, pivotRow, n);
+            swap_rows(identity, i, pivotRow, n);
+        }
+
         if (*(matrix + i * n + i) == 0) {
             //printf("Error: Matrix is not invertible.\n");
+            error_flag = 1;
             return error_flag;
         }
 
diff --git a/apps/micromechanics/LS-EVPFFT/src/math_functions.h b/apps/micromechanics/LS-EVPFFT/src/math_functions.h
index 3eb51cc..dd1c8bf 100644
--- a/apps/micromechanics/LS-EVPFFT/src/math_functions.h
+++ b/apps/micromechanics/LS-EVPFFT/src/math_functions.h
@@ -46,8 +46,21 @@ int invert_matrix(double *matrix)
 
     // Perform Gauss-Jordan elimination
     for (int i = 0; i < n; i++) {
+        // Find the pivot row
+        int pivotRow = i;
+        for (int j = i + 1; j < n; j++) {
+            if (fabs(*(matrix + j * n + i)) > fabs(*(matrix + pivotRow * n + i))) {
+                pivotRow = j;
+            }
+        }
+        if (pivotRow != i) {
+            swap_rows(matrix, i, pivotRow, n);
+            swap_rows(identity, i, pivotRow, n);
+        }
+
         if (*(matrix + i * n + i) == 0) {
             //printf("Error: Matrix is not invertible.\n");
+            error_flag = 1;
             return error_flag;
         }
 
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/math_functions.h b/apps/micromechanics/LSNP-EVPFFT/src/math_functions.h
index 3eb51cc..dd1c8bf 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/math_functions.h
+++ b/apps/micromechanics/LSNP-EVPFFT/src/math_functions.h
@@ -46,8 +46,21 @@ int invert_matrix(double *matrix)
 
     // Perform Gauss-Jordan elimination
     for (int i = 0; i < n; i++) {
+        // Find the pivot row
+        int pivotRow = i;
+        for (int j = i + 1; j < n; j++) {
+            if (fabs(*(matrix + j * n + i)) > fabs(*(matrix + pivotRow * n + i))) {
+                pivotRow = j;
+            }
+        }
+        if (pivotRow != i) {
+            swap_rows(matrix, i, pivotRow, n);
+            swap_rows(identity, i, pivotRow, n);
+        }
+
         if (*(matrix + i * n + i) == 0) {
             //printf("Error: Matrix is not invertible.\n");
+            error_flag = 1;
             return error_flag;
         }
 
-- 
2.43.0


From 1e96944d3a6266ee2bc4ae8ac675119e321c6487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:13 +0000
Subject: [PATCH 02/31] fix: clamp the cosine in euler() so rounding cannot
 give NaN angles

---
 apps/micromechanics/EVPFFT/src/euler.cpp       | 2 +-
 apps/micromechanics/LS-EVPFFT-J2/src/euler.cpp | 2 +-
 apps/micromechanics/LS-EVPFFT/src/euler.cpp    | 2 +-
 apps/micromechanics/LSNP-EVPFFT/src/euler.cpp  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/euler.cpp b/apps/micromechanics/EVPFFT/src/euler.cpp
index 4752b56..0ce0867 100644
--- a/apps/micromechanics/EVPFFT/src/euler.cpp
+++ b/apps/micromechanics/EVPFFT/src/euler.cpp
@@ -13,7 +13,7 @@ void euler(int iopt, real_t &ph, real_t &th, real_t &tm, real_t *a_)
   //  ph,th,om ARE THE EULER ANGLES OF ca REFERRED TO sa.
 
   if (iopt == 1) {
-    th = ACOS(a(3,3));
+    th = ACOS(a(3,3) > 1.0 ? 1.0 : (a(3,3) < -1.0 ? -1.0 : a(3,3)));
     if(ABS(a(3,3)) >= 0.9999) {
       tm = 0.0;
       ph = ATAN2(a(1,2),a(1,1));
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/euler.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/euler.cpp
index 4752b56..0ce0867 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/euler.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/euler.cpp
@@ -13,7 +13,7 @@ void euler(int iopt, real_t &ph, real_t &th, real_t &tm, real_t *a_)
   //  ph,th,om ARE THE EULER ANGLES OF ca REFERRED TO sa.
 
   if (iopt == 1) {
-    th = ACOS(a(3,3));
+    th = ACOS(a(3,3) > 1.0 ? 1.0 : (a(3,3) < -1.0 ? -1.0 : a(3,3)));
     if(ABS(a(3,3)) >= 0.9999) {
       tm = 0.0;
       ph = ATAN2(a(1,2),a(1,1));
diff --git a/apps/micromechanics/LS-EVPFFT/src/euler.cpp b/apps/micromechanics/LS-EVPFFT/src/euler.cpp
index 4752b56..0ce0867 100644
--- a/apps/micromechanics/LS-EVPFFT/src/euler.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/euler.cpp
@@ -13,7 +13,7 @@ void euler(int iopt, real_t &ph, real_t &th, real_t &tm, real_t *a_)
   //  ph,th,om ARE THE EULER ANGLES OF ca REFERRED TO sa.
 
   if (iopt == 1) {
-    th = ACOS(a(3,3));
+    th = ACOS(a(3,3) > 1.0 ? 1.0 : (a(3,3) < -1.0 ? -1.0 : a(3,3)));
     if(ABS(a(3,3)) >= 0.9999) {
       tm = 0.0;
       ph = ATAN2(a(1,2),a(1,1));
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/euler.cpp b/apps/micromechanics/LSNP-EVPFFT/src/euler.cpp
index 4752b56..0ce0867 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/euler.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/euler.cpp
@@ -13,7 +13,7 @@ void euler(int iopt, real_t &ph, real_t &th, real_t &tm, real_t *a_)
   //  ph,th,om ARE THE EULER ANGLES OF ca REFERRED TO sa.
 
   if (iopt == 1) {
-    th = ACOS(a(3,3));
+    th = ACOS(a(3,3) > 1.0 ? 1.0 : (a(3,3) < -1.0 ? -1.0 : a(3,3)));
     if(ABS(a(3,3)) >= 0.9999) {
       tm = 0.0;
       ph = ATAN2(a(1,2),a(1,1));
-- 
2.43.0


From adbd9f95ae9940d8a4dbbd35584e5ba19114cac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:13 +0000
Subject: [PATCH 03/31] fix: von Mises stress in the precision of real_t

---
 apps/micromechanics/EVPFFT/src/vm.cpp       | 2 +-
 apps/micromechanics/LS-EVPFFT-J2/src/vm.cpp | 2 +-
 apps/micromechanics/LS-EVPFFT/src/vm.cpp    | 2 +-
 apps/micromechanics/LSNP-EVPFFT/src/vm.cpp  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/vm.cpp b/apps/micromechanics/EVPFFT/src/vm.cpp
index db5872a..5e44d9b 100644
--- a/apps/micromechanics/EVPFFT/src/vm.cpp
+++ b/apps/micromechanics/EVPFFT/src/vm.cpp
@@ -37,7 +37,7 @@ KOKKOS_FUNCTION
 real_t vm_stress(real_t *stress) {
     /* Returns VonMises stress */
 
-    real_t von_mises = sqrtf((((stress[0] - stress[4])*(stress[0] - stress[4])) 
+    real_t von_mises = SQRT((((stress[0] - stress[4])*(stress[0] - stress[4])) 
                        +        ((stress[4] - stress[8])*(stress[4] - stress[8]))
                        +        ((stress[8] - stress[0])*(stress[8] - stress[0]))
                        +   6*(pow(stress[1], 2.0)+pow(stress[5],2.0)+pow(stress[2],2.0)))/2.0);
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/vm.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/vm.cpp
index db5872a..5e44d9b 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/vm.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/vm.cpp
@@ -37,7 +37,7 @@ KOKKOS_FUNCTION
 real_t vm_stress(real_t *stress) {
     /* Returns VonMises stress */
 
-    real_t von_mises = sqrtf((((stress[0] - stress[4])*(stress[0] - stress[4])) 
+    real_t von_mises = SQRT((((stress[0] - stress[4])*(stress[0] - stress[4])) 
                        +        ((stress[4] - stress[8])*(stress[4] - stress[8]))
                        +        ((stress[8] - stress[0])*(stress[8] - stress[0]))
                        +   6*(pow(stress[1], 2.0)+pow(stress[5],2.0)+pow(stress[2],2.0)))/2.0);
diff --git a/apps/micromechanics/LS-EVPFFT/src/vm.cpp b/apps/micromechanics/LS-EVPFFT/src/vm.cpp
index db5872a..5e44d9b 100644
--- a/apps/micromechanics/LS-EVPFFT/src/vm.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/vm.cpp
@@ -37,7 +37,7 @@ KOKKOS_FUNCTION
 real_t vm_stress(real_t *stress) {
     /* Returns VonMises stress */
 
-    real_t von_mises = sqrtf((((stress[0] - stress[4])*(stress[0] - stress[4])) 
+    real_t von_mises = SQRT((((stress[0] - stress[4])*(stress[0] - stress[4])) 
                        +        ((stress[4] - stress[8])*(stress[4] - stress[8]))
                        +        ((stress[8] - stress[0])*(stress[8] - stress[0]))
                        +   6*(pow(stress[1], 2.0)+pow(stress[5],2.0)+pow(stress[2],2.0)))/2.0);
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/vm.cpp b/apps/micromechanics/LSNP-EVPFFT/src/vm.cpp
index db5872a..5e44d9b 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/vm.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/vm.cpp
@@ -37,7 +37,7 @@ KOKKOS_FUNCTION
 real_t vm_stress(real_t *stress) {
     /* Returns VonMises stress */
 
-    real_t von_mises = sqrtf((((stress[0] - stress[4])*(stress[0] - stress[4])) 
+    real_t von_mises = SQRT((((stress[0] - stress[4])*(stress[0] - stress[4])) 
                        +        ((stress[4] - stress[8])*(stress[4] - stress[8]))
                        +        ((stress[8] - stress[0])*(stress[8] - stress[0]))
                        +   6*(pow(stress[1], 2.0)+pow(stress[5],2.0)+pow(stress[2],2.0)))/2.0);
-- 
2.43.0


From 9cac4e6cc72e809d2a04bb00df6b5b08040e8ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:12 +0000
Subject: [PATCH 04/31] fix: axisymmetric MARS curl limiter uses the magnitude
 of the curl

---
 .../src/material_models/artificial_viscosity/mars.hpp         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp b/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp
index 786812d..c7b5fa2 100644
--- a/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp
+++ b/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp
@@ -712,7 +712,7 @@ namespace MARSRZDissipationModel {
     double curl;
     curl = GaussPoints_vel_grad(elem_gid, 1, 0) - GaussPoints_vel_grad(elem_gid, 0, 1);  // dv/dx - du/dy
 
-    double mag_curl = curl;
+    double mag_curl = fabs(curl);
 
         
     // ---- Multidirectional Approximate Riemann solver (MARS) ----
@@ -986,7 +986,7 @@ namespace DirMARSRZDissipationModel {
     double curl;
     curl = GaussPoints_vel_grad(elem_gid, 1, 0) - GaussPoints_vel_grad(elem_gid, 0, 1);  // dv/dx - du/dy
 
-    double mag_curl = curl;
+    double mag_curl = fabs(curl);
 
 
     // --- Calculate edge normals of a corner ---
-- 
2.43.0


From 17923b348b7cd2569a68bfd3933e1a7a8c1168ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:12 +0000
Subject: [PATCH 05/31] fix: an eroded material point leaves the other
 materials' corner forces alone

---
 apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp   | 2 +-
 .../multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp
index 79391ed..f259c6c 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp
@@ -210,7 +210,7 @@ void SGH3D::get_force(const Material_t& Materials,
             // loop over dimensions and calc corner forces
             if (MaterialPoints_eroded(mat_id, mat_point_sid) == true) { // material(mat_id).blank_mat_id)
                 for (size_t dim = 0; dim < num_dims; dim++) {
-                    corner_force(corner_gid, dim) = 0.0;
+                    // corner_force is zeroed before the material loop, other materials in the elem may have added to it
                     MaterialCorners_force(mat_id, mat_corner_lid, dim) = 0.0;
                 }
             }
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp
index 55583c2..d22ae1a 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp
@@ -217,7 +217,7 @@ void SGHRZ::get_force_rz(const Material_t& Materials,
             // loop over dimensions and calc corner forces
             if (MaterialPoints_eroded(mat_id, mat_point_sid) == true) { 
                 for (int dim = 0; dim < num_dims; dim++) {
-                    corner_force(corner_gid, dim) = 0.0;
+                    // corner_force is zeroed before the material loop, other materials in the elem may have added to it
                     MaterialCorners_force(mat_id, mat_corner_lid, dim) = 0.0;
                 }
             }
-- 
2.43.0


From ee76b93531726e420f26527f8d44d8945ec4c434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:01 +0000
Subject: [PATCH 06/31] fix: directional MARS options select the directional
 models

---
 apps/multiphysics/src/input/parse_material_inputs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index d507f78..aa639a3 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -638,7 +638,7 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                             Materials.MaterialEnums.host(mat_id).DissipationModels = model::directionalMARS;
                             RUN({
                                 Materials.MaterialEnums(mat_id).DissipationModels = model::directionalMARS;
-                                Materials.MaterialFunctions(mat_id).calc_dissipation = &MARSDissipationModel::calc_dissipation;
+                                Materials.MaterialFunctions(mat_id).calc_dissipation = &DirMARSDissipationModel::calc_dissipation;
                             });
                             break;
                         //
@@ -652,7 +652,7 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                             Materials.MaterialEnums.host(mat_id).DissipationModels = model::directionalMARSRZ;
                             RUN({
                                 Materials.MaterialEnums(mat_id).DissipationModels = model::directionalMARSRZ;
-                                Materials.MaterialFunctions(mat_id).calc_dissipation = &MARSRZDissipationModel::calc_dissipation;
+                                Materials.MaterialFunctions(mat_id).calc_dissipation = &DirMARSRZDissipationModel::calc_dissipation;
                             });
                             break;                        
                         default:
-- 
2.43.0


From 6547cd955fb38d7c143a66e67d56d64e2f4a741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 07/31] fix: material density uses the material's own volume in
 every branch of the state update

---
 apps/multiphysics/src/Solvers/SGH_solver_3D/src/properties.cpp | 3 ++-
 .../src/Solvers/SGH_solver_rz/src/properties_rz.cpp            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/properties.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/properties.cpp
index 5eb5a1d..1eb1055 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/properties.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/properties.cpp
@@ -158,7 +158,8 @@ void SGH3D::update_state(
             size_t gauss_gid = elem_gid;
 
             // --- Density ---
-            MaterialPoints_den(mat_id, mat_point_sid) = MaterialPoints_mass(mat_id, mat_point_sid) / (GaussPoints_vol(gauss_gid) + 1.0e-20);
+            MaterialPoints_den(mat_id, mat_point_sid) = MaterialPoints_mass(mat_id, mat_point_sid) / 
+                  (GaussPoints_vol(gauss_gid)*MaterialPoints_volfrac(mat_id, mat_point_sid)*MaterialPoints_geo_volfrac(mat_id, mat_point_sid) + 1.0e-20);
         }); // end parallel for over mat elem lid
         Kokkos::fence();
     } // end if
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/properties_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/properties_rz.cpp
index 703c897..3b93e2c 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/properties_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/properties_rz.cpp
@@ -191,7 +191,8 @@ void SGHRZ::update_state_rz(
 
 
             // --- Density ---
-            MaterialPoints_den(mat_id, mat_point_sid) = MaterialPoints_mass(mat_id, mat_point_sid) / (GaussPoints_vol(gauss_gid) + 1.0e-20);
+            MaterialPoints_den(mat_id, mat_point_sid) = MaterialPoints_mass(mat_id, mat_point_sid) /
+               (GaussPoints_vol(gauss_gid)*MaterialPoints_volfrac(mat_id, mat_point_sid)*MaterialPoints_geo_volfrac(mat_id, mat_point_sid) + 1.0e-20);
 
 
             // --- call strength model ---
-- 
2.43.0


From a2ee90c1448d3dda0956f4ff6a2e50cf539abb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 08/31] fix: directional velocity boundary conditions project
 onto the direction

---
 .../boundary_conditions/velocity/piston_velocity_bc.hpp   | 8 +++++++-
 .../velocity/reflected_velocity_bc.hpp                    | 8 +++++++-
 .../velocity/time_varying_velocity_bc.hpp                 | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp b/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp
index 54b0e39..ce52a85 100644
--- a/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp
@@ -116,10 +116,16 @@ static void velocity(const swage::Mesh& mesh,
         } // will make sure it's a unit vector
         mag = sqrt(mag);
 
+        // velocity component along the specified direction
+        double vel_normal = 0.0;
+        for (size_t dim = 0; dim<mesh.num_dims; dim++){
+            vel_normal += node_vel(bdy_node_gid, dim) * (vel_bc_global_vars(bdy_set,dim)/mag);
+        }
+
         for (size_t dim = 0; dim<mesh.num_dims; dim++){
             // remove the velocity in the specified direction
             //  direction normal = vel_bc_global_vars(bdy_set,dim)/mag
-            node_vel(bdy_node_gid, dim) -= node_vel(bdy_node_gid, dim) * (vel_bc_global_vars(bdy_set,dim)/mag);
+            node_vel(bdy_node_gid, dim) -= vel_normal * (vel_bc_global_vars(bdy_set,dim)/mag);
 
             // add the desired velocity in the specified direction
             node_vel(bdy_node_gid, dim) += vel * (vel_bc_global_vars(bdy_set,dim)/mag);
diff --git a/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp b/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp
index 5657d8a..448bbf2 100644
--- a/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp
@@ -75,9 +75,15 @@ static void velocity(const swage::Mesh& mesh,
         mag += vel_bc_global_vars(bdy_set,dim)*vel_bc_global_vars(bdy_set,dim);
     } // will make sure it's a unit vector
 
+    // velocity component along the specified direction, over its magnitude
+    double vel_normal = 0.0;
+    for (size_t dim = 0; dim<mesh.num_dims; dim++){
+        vel_normal += node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+    }
+
     // Remove the velocity in the specified direction
     for (size_t dim = 0; dim<mesh.num_dims; dim++){
-        node_vel(bdy_node_gid, dim) -= node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+        node_vel(bdy_node_gid, dim) -= vel_normal*vel_bc_global_vars(bdy_set,dim);
     }
 
     return;
diff --git a/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp b/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp
index 50dd6e1..9a157b5 100644
--- a/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp
@@ -114,9 +114,15 @@ static void velocity(const swage::Mesh& mesh,
         } // will make sure it's a unit vector
         mag = sqrt(mag);
 
+        // velocity component along the specified direction
+        double vel_normal = 0.0;
+        for (size_t dim = 0; dim<mesh.num_dims; dim++){
+            vel_normal += node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+        }
+
         for (size_t dim = 0; dim<mesh.num_dims; dim++){
             // remove the velocity in the specified direction
-            node_vel(bdy_node_gid, dim) -= node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+            node_vel(bdy_node_gid, dim) -= vel_normal*vel_bc_global_vars(bdy_set,dim)/mag;
 
             // add the desired velocity in the specified direction
             node_vel(bdy_node_gid, dim) += vel*vel_bc_global_vars(bdy_set,dim)/mag;
-- 
2.43.0


From 9c4e9993c305fd64d56e92e7a77b8081ce9bf01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 09/31] fix: axisymmetric corner masses use the material's own
 part of the element

---
 .../src/Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp  | 2 ++
 .../src/Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp       | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp
index ac397ab..fc91666 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp
@@ -396,6 +396,8 @@ void calc_corner_mass_rz(const Material_t& Materials,
                          const DCArrayKokkos<double>& node_mass,
                          const DCArrayKokkos<double>& corner_mass,
                          const DRaggedRightArrayKokkos<double>& MaterialPoints_den,
+                         const DRaggedRightArrayKokkos<double>& MaterialPoints_volfrac,
+                         const DRaggedRightArrayKokkos<double>& MaterialPoints_geo_volfrac,
                          const DRaggedRightArrayKokkos<size_t>& elem_in_mat_elem,
                          const size_t num_mat_elems,
                          const size_t mat_id);
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp
index 0fe78da..ba7ef3a 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp
@@ -124,6 +124,8 @@ void SGHRZ::setup(SimulationParameters_t& SimulationParamaters,
                             State.node.mass,
                             State.corner.mass,
                             State.MaterialPoints.den,
+                            State.MaterialPoints.volfrac,
+                            State.MaterialPoints.geo_volfrac,
                             State.MaterialToMeshMaps.elem_in_mat_elem,
                             State.MaterialToMeshMaps.num_mat_elems.host(mat_id),
                             mat_id);
@@ -158,6 +160,8 @@ void calc_corner_mass_rz(const Material_t& Materials,
                          const DCArrayKokkos<double>& node_mass,
                          const DCArrayKokkos<double>& corner_mass,
                          const DRaggedRightArrayKokkos<double>& MaterialPoints_den,
+                         const DRaggedRightArrayKokkos<double>& MaterialPoints_volfrac,
+                         const DRaggedRightArrayKokkos<double>& MaterialPoints_geo_volfrac,
                          const DRaggedRightArrayKokkos<size_t>& elem_in_mat_elem,
                          const size_t num_mat_elems,
                          const size_t mat_id)
@@ -176,10 +180,13 @@ void calc_corner_mass_rz(const Material_t& Materials,
 
         geometry::get_area_weights2D(corner_areas, elem_gid, node_coords, elem_node_gids);
 
+        // the part of the element this material occupies
+        const double mat_frac = MaterialPoints_volfrac(mat_id, mat_elem_sid)*MaterialPoints_geo_volfrac(mat_id, mat_elem_sid);
+
         // loop over the corners of the element and calculate the mass
         for (size_t corner_lid = 0; corner_lid < 4; corner_lid++) {
             size_t corner_gid = mesh.corners_in_elem(elem_gid, corner_lid);
-            corner_mass(corner_gid) += corner_areas(corner_lid) * MaterialPoints_den(mat_id, mat_elem_sid); // node radius is added later
+            corner_mass(corner_gid) += corner_areas(corner_lid) * MaterialPoints_den(mat_id, mat_elem_sid) * mat_frac; // node radius is added later
         } // end for over corners
     });
 
-- 
2.43.0


From 4923d6c7277a55f7267163d80df16510af903e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 10/31] fix: temperature gradient is saved at the material
 point, not at the element number

---
 .../src/Solvers/SGTM_solver_3D/src/heat_flux.cpp            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
index cb896b2..e779417 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
@@ -153,9 +153,9 @@ void SGTM3D::get_heat_flux(
         }
 
         // ---- Save the temperature gradient to the material point for writing out ---- //
-        MaterialPoints_temp_grad(mat_id, elem_gid, 0) = temp_grad(0);
-        MaterialPoints_temp_grad(mat_id, elem_gid, 1) = temp_grad(1);
-        MaterialPoints_temp_grad(mat_id, elem_gid, 2) = temp_grad(2);
+        MaterialPoints_temp_grad(mat_id, mat_point_sid, 0) = temp_grad(0);
+        MaterialPoints_temp_grad(mat_id, mat_point_sid, 1) = temp_grad(1);
+        MaterialPoints_temp_grad(mat_id, mat_point_sid, 2) = temp_grad(2);
 
         // ---- Calculate the heat flux at the material point ---- //
         double conductivity = MaterialPoints_conductivity(mat_id, mat_point_sid); // NOTE: Consider moving this to properties and evaluate instead of save
-- 
2.43.0


From 2c8adc6a5d77f08ed4a5f6c0af82757c20ed8a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 11/31] fix: nodal specific heat averages over the materials
 around the node

---
 .../SGTM_solver_3D/include/sgtm_solver_3D.hpp    |  3 +++
 .../Solvers/SGTM_solver_3D/src/sgtm_execute.cpp  |  3 +++
 .../SGTM_solver_3D/src/temperature_sgtm.cpp      | 16 +++++++++++++++-
 apps/multiphysics/src/common/src/region_fill.cpp |  1 +
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
index 66a5bec..a330065 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
@@ -283,6 +283,9 @@ public:
             const DCArrayKokkos<double>& node_mass,
             const DCArrayKokkos<double>& node_q_transfer,
             const DRaggedRightArrayKokkos<double>& mat_pt_specific_heat,
+            const DCArrayKokkos<size_t>& num_mats_in_elem,
+            const DCArrayKokkos<size_t>& mats_in_elem,
+            const DCArrayKokkos<size_t>& mat_elems_in_elem,
             const double rk_alpha,
             const double dt) const;
 
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index f86663e..1cd967d 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -327,6 +327,9 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
                 State.node.mass,
                 State.node.q_transfer,
                 State.MaterialPoints.specific_heat, // Note: Need to make this a node field, and calculate in the material loop
+                State.MeshtoMaterialMaps.num_mats_in_elem,
+                State.MeshtoMaterialMaps.mats_in_elem,
+                State.MeshtoMaterialMaps.mat_elems_in_elem,
                 rk_alpha,
                 dt);
 
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp
index 7a1a626..7747f79 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp
@@ -46,6 +46,10 @@ ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 /// \param The temperature at the nodes
 /// \param The mass at the nodes
 /// \param The heat flux at the nodes
+/// \param The specific heat at the material points
+/// \param The number of materials in each element
+/// \param The materials in each element
+/// \param The storage index of each material in the element
 /// \param The RK integration alpha value
 /// \param Time step size
 ///
@@ -58,6 +62,9 @@ void SGTM3D::update_temperature(
     const DCArrayKokkos<double>& node_mass,
     const DCArrayKokkos<double>& node_q_transfer,
     const DRaggedRightArrayKokkos<double>& mat_pt_specific_heat,
+    const DCArrayKokkos<size_t>& num_mats_in_elem,
+    const DCArrayKokkos<size_t>& mats_in_elem,
+    const DCArrayKokkos<size_t>& mat_elems_in_elem,
     const double rk_alpha,
     const double dt) const
 {
@@ -77,7 +84,14 @@ void SGTM3D::update_temperature(
         double Cp = 0.0;
         for(int elem_lid = 0; elem_lid < mesh.num_corners_in_node(node_gid); elem_lid++){ // NOTE: num_corners_in_node = num_elems_in_node
             size_t elem_gid = mesh.elems_in_node(node_gid, elem_lid);
-            Cp += mat_pt_specific_heat(0,elem_gid)/mesh.num_corners_in_node(node_gid);
+
+            // average over the materials in the element
+            const size_t num_mats = num_mats_in_elem(elem_gid);
+            for(size_t mat_lid = 0; mat_lid < num_mats; mat_lid++){
+                const size_t mat_id = mats_in_elem(elem_gid, mat_lid);
+                const size_t mat_point_sid = mat_elems_in_elem(elem_gid, mat_lid); // 1 point per element
+                Cp += mat_pt_specific_heat(mat_id, mat_point_sid)/(num_mats*mesh.num_corners_in_node(node_gid));
+            }
         }
 
         // std::cout << "Cp*mass = " << Cp * node_mass(node_gid) << std::endl;
diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 19a27d5..2834c80 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -848,6 +848,7 @@ void material_state_setup(SimulationParameters_t& SimulationParamaters,
         } // end loop over materials in this element
     } // end serial for loop over all elements
     State.MaterialToMeshMaps.elem_in_mat_elem.update_device();
+    State.MeshtoMaterialMaps.mat_elems_in_elem.update_device();
 
 
     // copy the state to the device
-- 
2.43.0


From 824169a44eb209b7338e90708ffe194cc0af1ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 12/31] fix: table files with DOS line ends or tabs lose no
 rows

---
 apps/multiphysics/src/common/include/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/include/string_utils.hpp b/apps/multiphysics/src/common/include/string_utils.hpp
index ce44f1d..7f35e8b 100644
--- a/apps/multiphysics/src/common/include/string_utils.hpp
+++ b/apps/multiphysics/src/common/include/string_utils.hpp
@@ -36,7 +36,7 @@ ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include <string>
 
-const std::string WHITESPACE = " ";
+const std::string WHITESPACE = " \t\r";
 
 /////////////////////////////////////////////////////////////////////////////
 ///
-- 
2.43.0


From bd215d2a91ee13b403eb91533b6686d89a726bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:07 +0000
Subject: [PATCH 13/31] fix: the third component of the nodal coordinates is
 saved at its own node

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index a6d9194..327e33c 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -4092,7 +4092,7 @@ public:
                             node_vector_fields(node_coord_id, node_gid, 2) = 0.0;
                         }
                         else{
-                            node_vector_fields(node_coord_id, node_coord_id, 2) = Node.coords(node_gid, 2);
+                            node_vector_fields(node_coord_id, node_gid, 2) = Node.coords(node_gid, 2);
                         } // end if
 
                     }); // end parallel for
-- 
2.43.0


From 067ce925dc831f5b106ff53c1a796e84af2b34b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 14/31] fix: node velocity and temperature fills do not depend
 on the order of the elements

---
 .../src/common/src/region_fill.cpp            | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 2834c80..132c502 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -548,17 +548,31 @@ void fill_regions(
 
             } // end loop over gauss points
 
+        } // loop over the fills in this elem
+    }); // end FOR_ALL elem loop
+    Kokkos::fence();
 
-            // --- painting nodal variables ---  
 
-            // loop over the nodes of this element and apply velocity
-            for (size_t node_lid = 0; node_lid < mesh.num_nodes_in_elem; node_lid++) {
-                
-                // get the mesh node index
-                size_t node_gid = mesh.nodes_in_elem(elem_gid, node_lid);
+    //---------
+    // parallel loop over nodes in the mesh and set specified nodal state.  A node
+    // is shared by elements that can have different fills, so the loop is over the
+    // nodes and visits the elements around the node in order
+    //---------
+    FOR_ALL(node_gid, 0, mesh.num_nodes, {
 
-                // node coords(node_gid,dim)
-                ViewCArrayKokkos <double> a_node_coords(&node_coords(node_gid,0), 3);
+        // node coords(node_gid,dim)
+        ViewCArrayKokkos <double> a_node_coords(&node_coords(node_gid,0), 3);
+
+        // loop over the elements around this node and apply velocity and temperature
+        for (size_t elem_lid = 0; elem_lid < mesh.num_corners_in_node(node_gid); elem_lid++) { // NOTE: num_corners_in_node = num_elems_in_node
+
+            // get the mesh element index
+            size_t elem_gid = mesh.elems_in_node(node_gid, elem_lid);
+
+            for(size_t bin=0; bin<elem_num_mats_saved_in_elem(elem_gid); bin++){
+
+                // get the region fill id
+                size_t fill_id = elem_fill_ids(elem_gid, bin);
 
                 // paint the velocity onto the nodes of the mesh
                 if(node_vel.size()>0){
@@ -586,9 +600,9 @@ void fill_regions(
                                  region_fills(fill_id).temperature_field);
                 }
 
-            } // end loop over the nodes in elem
+            } // loop over the fills in this elem
 
-        } // loop over the fills in this elem
+        } // end loop over the elems around the node
     }); // end FOR_ALL node loop
     Kokkos::fence();
 
-- 
2.43.0


From bae56e199be5059f2fad9f669483d173b1abe947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 15/31] fix: a partial fill replaces the fill of the same
 material in the element

The position in the element's list of fills was used as the number of the fill.
---
 apps/multiphysics/src/common/src/region_fill.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 132c502..c591574 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1450,7 +1450,7 @@ void append_fills_in_elem(const DCArrayKokkos <double>& elem_volfracs,
     for (size_t a_fill=0; a_fill < num_fills_saved_in_elem(elem_gid); a_fill++){
 
         // get the mat_id in this fill
-        size_t a_mat_id = region_fills(a_fill).material_id;
+        size_t a_mat_id = region_fills(elem_fill_ids(elem_gid, a_fill)).material_id;
         if(mat_id == a_mat_id){
             // overwrite the existing material lid with new fill instructions
             fill_storage_lid = a_fill;  
-- 
2.43.0


From 8ae319a38456101c4961e2a872645818f84fefc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 16/31] fix: internal energy fills have storage when specific
 internal energy is filled as well

---
 apps/multiphysics/src/common/include/state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/include/state.hpp b/apps/multiphysics/src/common/include/state.hpp
index e2d8e33..3ab7c63 100644
--- a/apps/multiphysics/src/common/include/state.hpp
+++ b/apps/multiphysics/src/common/include/state.hpp
@@ -123,7 +123,7 @@ struct fillGaussState_t
                     }
                     break;
                 case fill_gauss_state::internal_energy:
-                    if (sie.size() == 0) this->ie = DCArrayKokkos<double>(num_gauss_points, max_mats_in_elem, "fill_gauss_point_ie");
+                    if (ie.size() == 0) this->ie = DCArrayKokkos<double>(num_gauss_points, max_mats_in_elem, "fill_gauss_point_ie");
                     if (use_sie.size() == 0){ 
                         this->use_sie = DCArrayKokkos<bool>(num_gauss_points, max_mats_in_elem, "fill_gauss_point_use_sie");
                         use_sie.set_values(false);
-- 
2.43.0


From bc487fb5cfe6bfe67f0235ce642a70a2432a4793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 17/31] fix: radial and spherical volume fractions are measured
 from their origin

---
 apps/multiphysics/src/common/src/region_fill.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index c591574..60a7071 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1525,7 +1525,7 @@ double get_region_scalar(const ViewCArrayKokkos <double> mesh_coords,
 
                 for (int dim = 0; dim < 2; dim++) {
                     dir[dim]    = (mesh_coords(dim) - orig[dim]);
-                    radius_val += mesh_coords(dim) * mesh_coords(dim);
+                    radius_val += dir[dim] * dir[dim];
                 } // end for
                 radius_val -= scalar; 
                 radius_val = sqrt(radius_val);
@@ -1546,7 +1546,7 @@ double get_region_scalar(const ViewCArrayKokkos <double> mesh_coords,
 
                 for (int dim = 0; dim < 3; dim++) {
                     dir[dim]    = (mesh_coords(dim) - orig[dim]);
-                    radius_val += mesh_coords(dim) * mesh_coords(dim);
+                    radius_val += dir[dim] * dir[dim];
                 } // end for
                 radius_val -= scalar; 
                 radius_val = sqrt(radius_val);
-- 
2.43.0


From ec9006377eee4ffb333e184a60b8eba79d72fd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 18/31] fix: nodal fills on 2D meshes do not read the
 coordinates of the next node

Spherical velocities and temperatures and linear temperatures in z used a
third coordinate, which a node of a 2D mesh does not have.
---
 apps/multiphysics/src/common/src/region_fill.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 60a7071..9664807 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -560,8 +560,12 @@ void fill_regions(
     //---------
     FOR_ALL(node_gid, 0, mesh.num_nodes, {
 
-        // node coords(node_gid,dim)
-        ViewCArrayKokkos <double> a_node_coords(&node_coords(node_gid,0), 3);
+        // node coords, always 3D
+        double a_node_coords_array[3];
+        a_node_coords_array[0] = node_coords(node_gid, 0);
+        a_node_coords_array[1] = node_coords(node_gid, 1);
+        a_node_coords_array[2] = (mesh.num_dims == 3) ? node_coords(node_gid, 2) : 0.0;
+        ViewCArrayKokkos <double> a_node_coords(&a_node_coords_array[0], 3);
 
         // loop over the elements around this node and apply velocity and temperature
         for (size_t elem_lid = 0; elem_lid < mesh.num_corners_in_node(node_gid); elem_lid++) { // NOTE: num_corners_in_node = num_elems_in_node
-- 
2.43.0


From 38c62b64a8fef7798fbdd003ebe0dba8e955d8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 19/31] fix: elements take the value of the voxel their centre
 lies in

The voxel spacing was computed from one point too few, the index was truncated
instead of rounded to the closest voxel centre (so it also reached outside the
voxel mesh), and the last point or value was not read when it was on a line of
its own.
---
 .../src/common/src/region_fill.cpp            | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 9664807..3b8e057 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1035,7 +1035,7 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
         {
             size_t num_saved = 0;
 
-            while (num_saved < num_points_i - 1) {
+            while (num_saved < num_points_i) {
                 // get next line
                 std::getline(in, str0);
 
@@ -1076,7 +1076,7 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
         {
             size_t num_saved = 0;
 
-            while (num_saved < num_points_j - 1) {
+            while (num_saved < num_points_j) {
                 // get next line
                 std::getline(in, str0);
 
@@ -1117,7 +1117,7 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
         {
             size_t num_saved = 0;
 
-            while (num_saved < num_points_k - 1) {
+            while (num_saved < num_points_k) {
                 // get next line
                 std::getline(in, str0);
 
@@ -1151,10 +1151,10 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
     num_elems_j = num_points_j - 1;
     num_elems_k = num_points_k - 1;
 
-    // center to center distance between first and last elem along each edge
-    double Lx = (pt_coords_x(num_points_i - 2) - pt_coords_x(0));
-    double Ly = (pt_coords_y(num_points_j - 2) - pt_coords_y(0));
-    double Lz = (pt_coords_z(num_points_k - 2) - pt_coords_z(0));
+    // distance between the first and last point along each edge
+    double Lx = (pt_coords_x(num_points_i - 1) - pt_coords_x(0));
+    double Ly = (pt_coords_y(num_points_j - 1) - pt_coords_y(0));
+    double Lz = (pt_coords_z(num_points_k - 1) - pt_coords_z(0));
 
     // spacing between elems
     dx = Lx / ((double) num_elems_i);
@@ -1212,7 +1212,7 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
         {
             size_t num_saved = 0;
 
-            while (num_saved < num_elems - 1) {
+            while (num_saved < num_elems) {
                 // get next line
                 std::getline(in, str0);
 
@@ -1361,9 +1361,9 @@ size_t fill_geometric_region(const swage::Mesh& mesh,
                 double j0_real = (mesh_coords(1) - orig_y - region_fills(f_id).origin[1]) / (voxel_dy);
                 double k0_real = (mesh_coords(2) - orig_z - region_fills(f_id).origin[2]) / (voxel_dz);
 
-                int i0 = (int)i0_real;
-                int j0 = (int)j0_real;
-                int k0 = (int)k0_real;
+                int i0 = (int)floor(i0_real + 0.5);
+                int j0 = (int)floor(j0_real + 0.5);
+                int k0 = (int)floor(k0_real + 0.5);
 
                 // look for the closest element in the voxel mesh
                 int elem_id0 = get_id_device(i0, j0, k0, voxel_num_i, voxel_num_j);
-- 
2.43.0


From dcd13357f9e6cf2d1575efbde06b5dac88b1094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 20/31] fix: filling a material again does not exceed the
 materials per element

The number of materials was checked before the search for the material, so
an element that holds the largest number of materials could not have one of
them filled again.
---
 apps/multiphysics/src/common/src/region_fill.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 3b8e057..51e8692 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1439,12 +1439,6 @@ void append_fills_in_elem(const DCArrayKokkos <double>& elem_volfracs,
     // the number of materials saved to this element, initialized to 0 at start of code
     size_t fill_storage_lid = num_fills_saved_in_elem(elem_gid);
 
-    // check on exceeding 3 materials per element
-    if (num_fills_saved_in_elem(elem_gid) > max_num_mats_per_elem-1){
-        Kokkos::abort("ERROR: exceeded max number of materials in an element when painting regions on the mesh \n Set max_num_mats_per_element to a larger value under multimaterial_options \n");
-    } // end if check
-
-
     // material id assigned to this fill
     const size_t mat_id = region_fills(fill_id).material_id;
 
@@ -1467,6 +1461,12 @@ void append_fills_in_elem(const DCArrayKokkos <double>& elem_volfracs,
     // There will now be at least 1 material so we want
     // num_fills_saved_in_elem >= 1, and it is intialized at 0 
     if (check_mat_exists == false){
+
+        // check on exceeding the max number of materials per element
+        if (num_fills_saved_in_elem(elem_gid) > max_num_mats_per_elem-1){
+            Kokkos::abort("ERROR: exceeded max number of materials in an element when painting regions on the mesh \n Set max_num_mats_per_element to a larger value under multimaterial_options \n");
+        } // end if check
+
         // we are adding a new material, so increment the number of saved
         num_fills_saved_in_elem(elem_gid) += 1;
     } // end check if material is a new one
-- 
2.43.0


From b1edc8b599d3c69f162a114de96fbad224410f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 21/31] fix: boundary surfaces on 2D meshes do not read an
 uninitialised third coordinate

---
 apps/multiphysics/src/common/src/geometry_new.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/src/geometry_new.cpp b/apps/multiphysics/src/common/src/geometry_new.cpp
index eb20124..b29649f 100644
--- a/apps/multiphysics/src/common/src/geometry_new.cpp
+++ b/apps/multiphysics/src/common/src/geometry_new.cpp
@@ -639,7 +639,7 @@ size_t check_bdy(const size_t patch_gid,
     size_t is_on_bdy = 0;
 
     // the patch coordinates
-    double these_patch_coords[3];  // Note: cannot allocated array with num_dims
+    double these_patch_coords[3] = { 0.0, 0.0, 0.0 };  // Note: cannot allocated array with num_dims, third is 0 in 2D
 
     // loop over the nodes on the patch
     for (size_t patch_node_lid = 0; patch_node_lid < mesh.num_nodes_in_patch; patch_node_lid++) {
-- 
2.43.0


From faa7813c2594dd61f8694fdbca2250313300db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 22/31] fix: unknown temperature, equation-of-state type and
 region volume words are refused

---
 apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp | 4 ++++
 apps/multiphysics/src/input/parse_material_inputs.cpp  | 1 +
 apps/multiphysics/src/input/parse_regions.cpp          | 4 ++++
 3 files changed, 9 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
index a8cbf1a..4ae502c 100644
--- a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
@@ -371,6 +371,10 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                             break;
                     }
                 }
+                else{
+                    std::cout << "ERROR: invalid boundary condition option input in YAML file: " << temperature_model << std::endl;
+                    throw std::runtime_error("**** Boundary Condition Temperature Model Not Understood ****");
+                } // end if
 
             }   
 
diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index aa639a3..8de1b06 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -260,6 +260,7 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                 } 
                 else{
                     std::cout << "ERROR: invalid eos type input: " << type << std::endl;
+                    throw std::runtime_error("**** EOS Type Not Understood ****");
                 } // end if
             }
             //
diff --git a/apps/multiphysics/src/input/parse_regions.cpp b/apps/multiphysics/src/input/parse_regions.cpp
index a1c6798..9c3832a 100644
--- a/apps/multiphysics/src/input/parse_regions.cpp
+++ b/apps/multiphysics/src/input/parse_regions.cpp
@@ -1440,6 +1440,10 @@ void parse_regions(Yaml::Node& root,
                                     throw std::runtime_error("**** Region Volume Fill Type Not Understood ****");
                                     break;
                             } // end switch
+                        }
+                        else{
+                            std::cout << "ERROR: invalid input: " << type << std::endl;
+                            throw std::runtime_error("**** Region Volume Fill Type Not Understood ****");
                         } // end if on setting volume tag
 
                     }  // end if on volume type
-- 
2.43.0


From b3b4b907edbf71aeddc46c0bf51edc16e1bb69da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 23/31] fix: the documented none options of stress, strength
 and dissipation are accepted

---
 .../stress/no_stress_bc.hpp                   |  1 +
 .../src/input/parse_bdy_conds_inputs.cpp      | 25 +++++++++++++++++++
 .../src/input/parse_material_inputs.cpp       |  9 +++++++
 3 files changed, 35 insertions(+)

diff --git a/apps/multiphysics/src/boundary_conditions/stress/no_stress_bc.hpp b/apps/multiphysics/src/boundary_conditions/stress/no_stress_bc.hpp
index 9549ea9..08180c8 100644
--- a/apps/multiphysics/src/boundary_conditions/stress/no_stress_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/stress/no_stress_bc.hpp
@@ -65,6 +65,7 @@ static void stress(const swage::Mesh& mesh,
     const ViewCArrayKokkos <double>& corner_surf_force,
     const ViewCArrayKokkos <double>& corner_surf_normal,
     const double time_value,
+    const size_t rk_stage,
     const size_t bdy_node_gid,
     const size_t bdy_set)
 {
diff --git a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
index 4ae502c..bff396f 100644
--- a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
@@ -291,6 +291,14 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                                 BoundaryConditions.BoundaryConditionFunctions(bc_id).velocity = &PistonVelocityBC::velocity;
                             });
                             break;                        
+                        case boundary_conditions::noVelocityBC:
+                            std::cout << "Setting no velocity bc " << std::endl;
+                            
+                            RUN({
+                                BoundaryConditions.BoundaryConditionEnums(bc_id).BCVelocityModel = boundary_conditions::noVelocityBC;
+                                BoundaryConditions.BoundaryConditionFunctions(bc_id).velocity = &NoVelocityBC::velocity;
+                            });
+                            break;
                         default:
                             
                             std::cout << "ERROR: invalid velocity boundary condition input: " << velocity_model << std::endl;
@@ -365,6 +373,14 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                             });
                             break;
 
+                        case boundary_conditions::noTemperatureBC:
+                            std::cout << "Setting no temperature bc " << std::endl;
+                            
+                            RUN({
+                                BoundaryConditions.BoundaryConditionEnums(bc_id).BCTemperatureModel = boundary_conditions::noTemperatureBC;
+                            });
+                            break;
+
                         default:
                             std::cout << "ERROR: invalid temperature boundary condition input: " << temperature_model << std::endl;
                             throw std::runtime_error("**** Temperature BC model Not Understood ****");
@@ -454,6 +470,15 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                             }
                             BoundaryConditions.fracture_bc_id = static_cast<int>(bc_id);
                             break;
+
+                        case boundary_conditions::noStressBC:
+                            std::cout << "Setting no stress bc " << std::endl;
+                            
+                            RUN({
+                                BoundaryConditions.BoundaryConditionEnums(bc_id).BCStressModel = boundary_conditions::noStressBC;
+                                BoundaryConditions.BoundaryConditionFunctions(bc_id).stress = &NoStressBC::stress;
+                            });
+                            break;
                       
                         default:
                             
diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index 8de1b06..22f3654 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -601,6 +601,15 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
 
                     // dissipation_model_map[dissipation_model] returns enum value, e.g., model::dissipation
                     switch(dissipation_model_map[dissipation_model]){
+                        case model::noDissipation:
+
+                            Materials.MaterialEnums.host(mat_id).DissipationModels = model::noDissipation;
+                            RUN({
+                                Materials.MaterialEnums(mat_id).DissipationModels = model::noDissipation;
+                                Materials.MaterialFunctions(mat_id).calc_dissipation = &NoDissipationModel::calc_dissipation;
+                            });
+                            break;
+                        //
                         case model::MARS:
                             
                             if(num_dims == 2){
-- 
2.43.0


From 1c246cda517b642dd27cab179f41642682dc4be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 24/31] fix: geo_equilibration_model selects the geometric
 equilibration model

---
 apps/multiphysics/src/input/parse_material_inputs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index 22f3654..e6f2a64 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -1111,17 +1111,17 @@ void parse_multimaterial_options(Yaml::Node& root, Material_t& Materials)
                 switch(equilibration_model_map[equilibration_model]){
                     case model::tiptonEquilibration:
                     {
-                        Materials.EquilibrationModels = model::tiptonEquilibration;
+                        Materials.GeoEquilibrationModels = model::tiptonEquilibration;
                         break;
                     }
                     case model::userDefinedEquilibration:
                     {
-                        Materials.EquilibrationModels = model::userDefinedEquilibration;
+                        Materials.GeoEquilibrationModels = model::userDefinedEquilibration;
                         break;
                     }
                     case model::noEquilibration:
                     {
-                        Materials.EquilibrationModels = model::noEquilibration;
+                        Materials.GeoEquilibrationModels = model::noEquilibration;
                         break;
                     }
                     default:
-- 
2.43.0


From 4b08b8ac6ebe6461a05d14ca0676870c8200761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 25/31] fix: a region that names a solver outside the deck is
 refused

---
 apps/multiphysics/src/input/parse_regions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_regions.cpp b/apps/multiphysics/src/input/parse_regions.cpp
index 9c3832a..9a7b00a 100644
--- a/apps/multiphysics/src/input/parse_regions.cpp
+++ b/apps/multiphysics/src/input/parse_regions.cpp
@@ -125,6 +125,12 @@ void parse_regions(Yaml::Node& root,
             // set the values
             if (a_word.compare("solver_id") == 0) {
                 int solver_id = root["regions"][reg_id]["region"][a_word].As<int>();
+
+                if (solver_id<0 || solver_id>=num_solvers){
+                    std::cout << "ERROR: invalid solver_id specified in the region definition. Either negative or >= num_solvers" << std::endl;
+            
+                    throw std::runtime_error("**** Solver_id is out of bounds ****");
+                } // end check on solver_id range
                 
                 // get the local id for filling this region
                 size_t fill_lid = num_reg_fills_in_solver.host(solver_id);
-- 
2.43.0


From baa017d12479b90caad00dd4435a154442248d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:08 +0000
Subject: [PATCH 26/31] fix: material outputs of conductivity and specific heat
 are stored per material element

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 327e33c..8bff2b5 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -3997,22 +3997,16 @@ public:
                 case material_pt_state::thermal_conductivity:
                     FOR_ALL(mat_elem_sid, 0, num_mat_elems, {
 
-                        // get elem gid
-                        size_t elem_gid = elem_in_mat_elem(mat_id, mat_elem_sid);
-
                         // field
-                        mat_elem_scalar_fields(mat_conductivity_id, elem_gid) += MaterialPoints.conductivity(mat_id, mat_elem_sid);
+                        mat_elem_scalar_fields(mat_conductivity_id, mat_elem_sid) = MaterialPoints.conductivity(mat_id, mat_elem_sid);
                     });
                     break;
 
                 case material_pt_state::specific_heat:
                     FOR_ALL(mat_elem_sid, 0, num_mat_elems, {
 
-                        // get elem gid
-                        size_t elem_gid = elem_in_mat_elem(mat_id, mat_elem_sid);
-
                         // field
-                        mat_elem_scalar_fields(mat_specific_heat_id, elem_gid) += MaterialPoints.specific_heat(mat_id, mat_elem_sid);
+                        mat_elem_scalar_fields(mat_specific_heat_id, mat_elem_sid) = MaterialPoints.specific_heat(mat_id, mat_elem_sid);
                     });
                     break;
 
-- 
2.43.0


From bac4c066f8b2a4e0050eef8dd6c5264534f15816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:08 +0000
Subject: [PATCH 27/31] fix: the specific internal energy output does not need
 the mass output

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 8bff2b5..ed9ef23 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -2591,9 +2591,20 @@ public:
 
         // make specific fields for the element average
         if (sie_id>=0){
+
+            // the mass in the element, which might not be an output
+            DCArrayKokkos<double> elem_mass(num_elems, "elem_mass");
+            elem_mass.set_values(0.0);
+
+            for (int mat_id = 0; mat_id < num_mats; mat_id++) {
+                FOR_ALL(mat_elem_sid, 0, State.MaterialToMeshMaps.num_mat_elems.host(mat_id), {
+                    elem_mass(State.MaterialToMeshMaps.elem_in_mat_elem(mat_id, mat_elem_sid)) += State.MaterialPoints.mass(mat_id, mat_elem_sid);
+                });
+            } // end for mats
+
             FOR_ALL(elem_gid, 0, num_elems, {
                 // get sie by dividing by the mass
-                elem_scalar_fields(sie_id, elem_gid) /= (elem_scalar_fields(mass_id, elem_gid)+1.e-20); 
+                elem_scalar_fields(sie_id, elem_gid) /= (elem_mass(elem_gid)+1.e-20); 
             });
         } // end if
 
-- 
2.43.0


From e34095793cb47af41de53e18c9c1508163c9f120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:08 +0000
Subject: [PATCH 28/31] fix: the vtm file lists the material files that were
 written

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index ed9ef23..9e7c099 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -2718,7 +2718,7 @@ public:
 
 
             // note: the file path and folder was created in the elem and node outputs
-            size_t num_mat_files_written = 0;
+            std::vector<size_t> mat_files_written; // the materials with a file
             if(num_mat_pt_scalar_vars > 0 || num_mat_pt_tensor_vars >0){
 
                 for (int mat_id = 0; mat_id < num_mats; mat_id++) {
@@ -2808,7 +2808,7 @@ public:
                                   solver_id);
 
 
-                        num_mat_files_written++;
+                        mat_files_written.push_back(mat_id);
 
                     } // end for mat_id
 
@@ -2849,7 +2849,7 @@ public:
                       mat_fields_name,
                       time_value,
                       graphics_id,
-                      num_mat_files_written,
+                      mat_files_written,
                       write_mesh_state,
                       write_mat_pt_state,
                       solver_id);
@@ -4504,7 +4504,7 @@ public:
                    const  std::string& mat_part_name,
                    double time_value,
                    int graphics_id,
-                   int num_mats,
+                   const std::vector<size_t>& mat_files_written,
                    bool write_mesh_state,
                    bool write_mat_pt_state,
                    const size_t solver_id)
@@ -4552,10 +4552,12 @@ public:
             // note: the block_id was incremented if an element average field output was made
             if (write_mat_pt_state){
                 fprintf(out[0], "    <Block index=\"%zu\" name=\"Mat\">\n", block_id);
-                for (size_t mat_id=0; mat_id<num_mats; mat_id++){
+                for (size_t piece_id=0; piece_id<mat_files_written.size(); piece_id++){
+
+                    const size_t mat_id = mat_files_written[piece_id];
                     
                     // output the material specific fields
-                    fprintf(out[0], "      <Piece index=\"%zu\" name=\"Mat%zu\">\n", mat_id, mat_id);
+                    fprintf(out[0], "      <Piece index=\"%zu\" name=\"Mat%zu\">\n", piece_id, mat_id);
                     fprintf(out[0], "        <DataSet timestep=\"%d\" file=\"Fierro.solver%zu.%s%zu.%05d.vtu\" time= \"%12.5e\" />\n", 
                                                                file_id, solver_id, mat_part_name.c_str(), mat_id, file_id, graphics_times(file_id) );
                     fprintf(out[0], "      </Piece>\n");
-- 
2.43.0


From f0dfee337d0bdac57ea513bb5fedf1b86af2714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:40 +0000
Subject: [PATCH 29/31] fix: output times follow the start time of the solver
 and are not moved by outputs by cycle

graphics_time was the number of files times the interval.  A solver that starts
where another ended wrote a file after every (tiny) step until the number of
files had caught up with the time, and every file written for another reason
skipped one of the requested times.
---
 .../src/Solvers/SGH_solver_3D/src/sgh_execute.cpp             | 4 +++-
 .../src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp          | 4 +++-
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp           | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
index 5b6295d..ae3e88b 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
@@ -611,7 +611,9 @@ void SGH3D::execute(SimulationParameters_t& SimulationParamaters,
                                    SGH3D_State::required_material_pt_state,
                                    this->solver_id);
             output_id++;
-            graphics_time = (double)(output_id) * graphics_dt_ival;
+            if (time_value >= graphics_time) {
+                graphics_time += graphics_dt_ival; // next time for a graphics dump
+            }
 
             dt = cached_pregraphics_dt;
         } // end if
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
index 21e4139..a185a03 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
@@ -459,7 +459,9 @@ void SGHRZ::execute(SimulationParameters_t& SimulationParamaters,
                                    this->solver_id);
 
             output_id++;
-            graphics_time = (double)(output_id) * graphics_dt_ival;
+            if (time_value >= graphics_time) {
+                graphics_time += graphics_dt_ival; // next time for a graphics dump
+            }
 
             dt = cached_pregraphics_dt;
         } // end if
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index 1cd967d..77beb0a 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -403,7 +403,9 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
                                    this->solver_id);
 
             output_id++;
-            graphics_time = (double)(output_id) * graphics_dt_ival;
+            if (time_value >= graphics_time) {
+                graphics_time += graphics_dt_ival; // next time for a graphics dump
+            }
 
         } // end if
 
-- 
2.43.0


From a7e4a22af6a57cadfc6d95754684b1b95ebfc7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:40 +0000
Subject: [PATCH 30/31] fix: write the state of the last cycle

cycle == cycle_stop never holds inside the loop over cycle < cycle_stop.
---
 apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp | 2 +-
 .../src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp            | 2 +-
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp             | 2 +-
 .../src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp             | 2 +-
 .../src/Solvers/level_set_solver/src/level_set_execute.cpp      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
index ae3e88b..8d8c276 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
@@ -587,7 +587,7 @@ void SGH3D::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
index a185a03..b1d1b88 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
@@ -434,7 +434,7 @@ void SGHRZ::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index 77beb0a..62e6c25 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -376,7 +376,7 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp b/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
index f484a9a..c0e4eb2 100644
--- a/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
+++ b/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
@@ -183,7 +183,7 @@ void TLQS3D::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
index 75ba514..1cca9ec 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
@@ -307,7 +307,7 @@ void LevelSet::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
-- 
2.43.0


From d03c5adeb1e501f794d7db5c88e4b396c9a79bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 31/31] fix: the moving heat source starts on its path

It was at the origin during the first cycle.
---
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp    | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index 62e6c25..f747a57 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -147,9 +147,13 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
     // ---- Set up sphere to act as a moving heat source ---- //
     DCArrayKokkos<double> sphere_position(3, "sphere_position");
 
-    sphere_position.host(0) = 0.0;
-    sphere_position.host(1) = 0.0;
-    sphere_position.host(2) = 0.0;
+    double source_x = 0.0;
+    double source_y = 0.0;
+    double source_z = 0.0;
+    path.get_position(time_value, source_x, source_y, source_z);
+    sphere_position.host(0) = source_x;
+    sphere_position.host(1) = source_y;
+    sphere_position.host(2) = source_z;
     sphere_position.update_device();
 
 
-- 
2.43.0

