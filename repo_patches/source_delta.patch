From adf37d886405d42d2d219dea863c9d257dd9ccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:32 +0000
Subject: [PATCH 01/12] verif hook: spline degree selectable through
 MATTER_VERIF_SPLINEDEG

---
 src/tools.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools.hpp b/src/tools.hpp
index 9243644..59db5f9 100644
--- a/src/tools.hpp
+++ b/src/tools.hpp
@@ -22,7 +22,11 @@ typedef double T; // float or double
 // #define WARNINGS // Write more debug info to screen
 ///////////////////////////////////////////////////
 
-
+// Verification hook: lets a build select the spline degree from the command line
+#ifdef MATTER_VERIF_SPLINEDEG
+    #undef SPLINEDEG
+    #define SPLINEDEG MATTER_VERIF_SPLINEDEG
+#endif
 
 // Needed for tinyply (do NOT uncomment):
 #define TINYPLY_IMPLEMENTATION
-- 
2.43.0


From 27e0210f7b929ed229bb7fcbc450582cd4638dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:46 +0000
Subject: [PATCH 02/12] fix: grid expansion must round outwards, a particle
 just past a whole cell left the grid

---
 src/simulation/remesh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simulation/remesh.cpp b/src/simulation/remesh.cpp
index a1fd82f..9815841 100644
--- a/src/simulation/remesh.cpp
+++ b/src/simulation/remesh.cpp
@@ -230,7 +230,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_x_init-max_x)/dx - 1e-8*dx) );
         high_x = high_x_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_x-max_x_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(max_x-max_x_init)/dx + 1e-8*dx) );
         high_x = high_x_init + expansion_factor * dx;
     }
 
@@ -239,7 +239,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_x-min_x_init)/dx - 1e-8*dx) );
         low_x = low_x_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_x_init-min_x)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(min_x_init-min_x)/dx + 1e-8*dx) );
         low_x = low_x_init - expansion_factor * dx;
     }
 
@@ -248,7 +248,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_y_init-max_y)/dx - 1e-8*dx) );
         high_y = high_y_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_y-max_y_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(max_y-max_y_init)/dx + 1e-8*dx) );
         high_y = high_y_init + expansion_factor * dx;
     }
 
@@ -257,7 +257,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_y-min_y_init)/dx - 1e-8*dx) );
         low_y = low_y_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_y_init-min_y)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(min_y_init-min_y)/dx + 1e-8*dx) );
         low_y = low_y_init - expansion_factor * dx;
     }
 #ifdef THREEDIM
@@ -266,7 +266,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_z_init-max_z)/dx - 1e-8*dx) );
         high_z = high_z_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_z-max_z_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(max_z-max_z_init)/dx + 1e-8*dx) );
         high_z = high_z_init + expansion_factor * dx;
     }
 
@@ -275,7 +275,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_z-min_z_init)/dx - 1e-8*dx) );
         low_z = low_z_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_z_init-min_z)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(min_z_init-min_z)/dx + 1e-8*dx) );
         low_z = low_z_init - expansion_factor * dx;
     }
 #endif
-- 
2.43.0


From 7873ecca446ce7abb48286f60b3a89181d226e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:46 +0000
Subject: [PATCH 03/12] fix: 3D plate friction scales both tangential
 components (second one used the first after modification, NaN when one is
 zero)

---
 src/simulation/boundary_collision.cpp | 30 ++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/simulation/boundary_collision.cpp b/src/simulation/boundary_collision.cpp
index 227815e..f72331a 100644
--- a/src/simulation/boundary_collision.cpp
+++ b/src/simulation/boundary_collision.cpp
@@ -114,8 +114,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vx_rel*vx_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vz_rel*vz_rel));
+                        T factor = (vel_t - fric_vel_n) / vel_t;
+                        vx_rel *= factor;
+                        vz_rel *= factor;
                     }
 
                     // normal component (y) must be set to zero
@@ -136,8 +137,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vy_rel*vy_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vz_rel*vz_rel));
+                        T factor = (vel_t - fric_vel_n) / vel_t;
+                        vy_rel *= factor;
+                        vz_rel *= factor;
                     }
 
                     // normal component (x) must be set to zero
@@ -158,8 +160,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vy_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vx_rel*vx_rel));
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vy_rel*vy_rel));
+                        T factor = (vel_t - fric_vel_n) / vel_t;
+                        vx_rel *= factor;
+                        vy_rel *= factor;
                     }
 
                     // normal component (z) must be set to zero
@@ -189,8 +192,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vx_rel*vx_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vz_rel*vz_rel));
+                        T factor = (vel_t - fric_vel_n) / vel_t;
+                        vx_rel *= factor;
+                        vz_rel *= factor;
                     }
 
                     // normal component (y) must be set to zero
@@ -210,8 +214,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vy_rel*vy_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vz_rel*vz_rel));
+                        T factor = (vel_t - fric_vel_n) / vel_t;
+                        vy_rel *= factor;
+                        vz_rel *= factor;
                     }
 
                     // normal component (x) must be set to zero
@@ -231,8 +236,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vy_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vx_rel*vx_rel));
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vy_rel*vy_rel));
+                        T factor = (vel_t - fric_vel_n) / vel_t;
+                        vx_rel *= factor;
+                        vy_rel *= factor;
                     }
 
                     // normal component (z) must be set to zero
-- 
2.43.0


From b96489d310e9a6c4cabdfb0e65606aec5f8872e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:46 +0000
Subject: [PATCH 04/12] fix: ground normal left its z component uninitialised
 in 3D

---
 src/objects/object_ground.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/objects/object_ground.hpp b/src/objects/object_ground.hpp
index 55b8d10..97d3c76 100644
--- a/src/objects/object_ground.hpp
+++ b/src/objects/object_ground.hpp
@@ -26,7 +26,7 @@ public:
 
     TV normal(const TV& X_in) const override {
 
-        TV n;
+        TV n = TV::Zero();
         
         n(0) = 0;
         n(1) = 1;
-- 
2.43.0


From 762089664711837f84b95d1c09de9c53e28ffb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:23 +0000
Subject: [PATCH 05/12] fix: capped von Mises kept the trial stress after
 resetting the deformation gradient

---
 src/simulation/plasticity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 21f9e1f..3e156fe 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -188,6 +188,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             if (p_trial < p_min * exp(-xi * particles.eps_pl_vol[p])){
                 T delta_gamma = q_trial / f_mu_prefac;
                 T eps_pl_vol_inst = -p_trial/K;
+                hencky.setZero();
                 particles.F[p] = svd.matrixU() * svd.matrixV().transpose();
                 particles.eps_pl_vol[p] += eps_pl_vol_inst;
                 particles.eps_pl_dev[p] += (1.0/d_prefac) * delta_gamma;
-- 
2.43.0


From d6ebc4ee699382e3c807e92c2f1c246c1fb5f416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:23 +0000
Subject: [PATCH 06/12] fix: MCC without hardening read an uninitialised p_c
 when use_mibf is set

---
 src/simulation/plasticity.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 3e156fe..1f8133d 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -554,7 +554,8 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             
             bool perform_rma;
             T p_c;
-            if (hardening_law == HardeningLaw::NoHard){ // Exponential Explicit Hardening
+            if (hardening_law == HardeningLaw::NoHard){ // No hardening
+                p_c = p0;
                    perform_rma =       MCCRMAExplicit(p_stress, q_stress, exit, M, p0, beta, mu, K, f_mu_prefac);
                 // perform_rma = MCCRMAExplicitOnevar(p_stress, q_stress, exit, M, p0, beta, mu, K);
             }
-- 
2.43.0


From 3c8ee51fb220e03b4cfe8dbe9390f3c351d2021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:23 +0000
Subject: [PATCH 07/12] fix: data race on plastic_count in G2P

---
 src/simulation/g2p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/g2p.cpp b/src/simulation/g2p.cpp
index 1e6ef21..18df239 100644
--- a/src/simulation/g2p.cpp
+++ b/src/simulation/g2p.cpp
@@ -19,7 +19,7 @@ void Simulation::G2P(){
     #pragma omp parallel num_threads(n_threads)
     {
 
-        #pragma omp for nowait
+        #pragma omp for reduction(+:plastic_count) nowait
         for(int p = 0; p < Np; p++){
             TV xp = particles.x[p];
             TV vp    = TV::Zero();
-- 
2.43.0


From 7b1aa1b7211e415f2d18a7e81ae803aaf7179b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:23 +0000
Subject: [PATCH 08/12] fix: elastic particles kept the plastic strain rate of
 an earlier step (reset it as deformationUpdate does)

---
 src/simulation/g2p.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulation/g2p.cpp b/src/simulation/g2p.cpp
index 18df239..4d6b71b 100644
--- a/src/simulation/g2p.cpp
+++ b/src/simulation/g2p.cpp
@@ -15,6 +15,8 @@ void Simulation::G2P(){
     std::fill( particles.pic.begin(),  particles.pic.end(),  TV::Zero() );
     std::fill( particles.flip.begin(), particles.flip.end(), TV::Zero() );
     std::fill( particles.Bmat.begin(), particles.Bmat.end(), TM::Zero() );
+    if (!use_musl)
+        std::fill( particles.delta_gamma.begin(), particles.delta_gamma.end(), 0.0 );
 
     #pragma omp parallel num_threads(n_threads)
     {
-- 
2.43.0


From b2228951ef2fc6f4ef5ddb6d3e7dfb94a1f2141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:23 +0000
Subject: [PATCH 09/12] fix: periodic images were appended while other threads
 read the same vectors

---
 src/simulation/pbc.cpp | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index 0795fd8..38028be 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -40,7 +40,6 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
 
     num_add_pbc_particles = 0;
 
-    #pragma omp parallel for reduction(+:num_add_pbc_particles) num_threads(n_threads)
     for(int p = 0; p < Np; p++){
 
         TV part_x = particles.x[p]; // copy
@@ -49,14 +48,11 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         diff = Lx - part_x(0);
         if ( diff < safety_factor*dx && diff > 0){
             part_x(0) = -diff;
-            #pragma omp critical
-            {
-                particles.x.push_back(part_x);
-                particles.v.push_back(particles.v[p]);
-                particles.F.push_back(particles.F[p]);
-                particles.Bmat.push_back(particles.Bmat[p]);
-                particles.tau.push_back(particles.tau[p]);
-            }
+            particles.x.push_back(part_x);
+            particles.v.push_back(particles.v[p]);
+            particles.F.push_back(particles.F[p]);
+            particles.Bmat.push_back(particles.Bmat[p]);
+            particles.tau.push_back(particles.tau[p]);
             num_add_pbc_particles++;
             continue; // go directly to next p
         }
@@ -64,14 +60,11 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         diff = part_x(0);
         if ( diff < safety_factor*dx && diff >= 0 ){
             part_x(0) = Lx + diff;
-            #pragma omp critical
-            {
-                particles.x.push_back(part_x);
-                particles.v.push_back(particles.v[p]);
-                particles.F.push_back(particles.F[p]);
-                particles.Bmat.push_back(particles.Bmat[p]);
-                particles.tau.push_back(particles.tau[p]);
-            }
+            particles.x.push_back(part_x);
+            particles.v.push_back(particles.v[p]);
+            particles.F.push_back(particles.F[p]);
+            particles.Bmat.push_back(particles.Bmat[p]);
+            particles.tau.push_back(particles.tau[p]);
             num_add_pbc_particles++;
             continue; // go directly to next p
         }
-- 
2.43.0


From 16ac23e1224af5f1b51c89cefa9de771b21a8dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:23 +0000
Subject: [PATCH 10/12] fix: periodic images lacked muI, which P2G reads when
 use_mibf is set

---
 src/simulation/pbc.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index 38028be..06c5820 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -17,6 +17,7 @@ void Simulation::PBCAddParticles1D(){
         particles.F.push_back(particles.F[p]);
         particles.Bmat.push_back(particles.Bmat[p]);
         particles.tau.push_back(particles.tau[p]);
+        particles.muI.push_back(particles.muI[p]);
         num_add_pbc_particles++;
 
         particles.x.push_back(part_x-incr);
@@ -24,6 +25,7 @@ void Simulation::PBCAddParticles1D(){
         particles.F.push_back(particles.F[p]);
         particles.Bmat.push_back(particles.Bmat[p]);
         particles.tau.push_back(particles.tau[p]);
+        particles.muI.push_back(particles.muI[p]);
         num_add_pbc_particles++;
 
     } // end loop over p
@@ -53,6 +55,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
             particles.F.push_back(particles.F[p]);
             particles.Bmat.push_back(particles.Bmat[p]);
             particles.tau.push_back(particles.tau[p]);
+            particles.muI.push_back(particles.muI[p]);
             num_add_pbc_particles++;
             continue; // go directly to next p
         }
@@ -65,6 +68,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
             particles.F.push_back(particles.F[p]);
             particles.Bmat.push_back(particles.Bmat[p]);
             particles.tau.push_back(particles.tau[p]);
+            particles.muI.push_back(particles.muI[p]);
             num_add_pbc_particles++;
             continue; // go directly to next p
         }
@@ -90,6 +94,7 @@ void Simulation::PBCDelParticles(){
     particles.F.erase(   particles.F.end()   -num_add_pbc_particles, particles.F.end()   );
     particles.Bmat.erase(particles.Bmat.end()-num_add_pbc_particles, particles.Bmat.end());
     particles.tau.erase( particles.tau.end() -num_add_pbc_particles, particles.tau.end() );
+    particles.muI.erase( particles.muI.end() -num_add_pbc_particles, particles.muI.end() );
     Np = particles.x.size();
 
 #ifdef WARNINGS
-- 
2.43.0


From 42f2ffa1c9ea3f528e640b0da39e20a1ba0bf9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:23 +0000
Subject: [PATCH 11/12] fix: a particle exactly on the upper periodic boundary
 got no image

---
 src/simulation/pbc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index 06c5820..e744012 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -48,7 +48,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         T diff;
 
         diff = Lx - part_x(0);
-        if ( diff < safety_factor*dx && diff > 0){
+        if ( diff < safety_factor*dx && diff >= 0){
             part_x(0) = -diff;
             particles.x.push_back(part_x);
             particles.v.push_back(particles.v[p]);
-- 
2.43.0


From a01a99a5491074470466ff1c589f64e1ed985acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:23 +0000
Subject: [PATCH 12/12] fix: MUSL re-projection left out the periodic images
 that are part of the grid mass

---
 src/simulation/musl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/simulation/musl.cpp b/src/simulation/musl.cpp
index 5ab5e98..060c46c 100644
--- a/src/simulation/musl.cpp
+++ b/src/simulation/musl.cpp
@@ -25,6 +25,10 @@ void Simulation::MUSL(){
     } // end loop over particles
 
 
+    // the periodic images must contribute to the new grid velocity as they did to the grid mass
+    if (pbc)
+        PBCAddParticles(4);
+
     std::fill( grid.v.begin(), grid.v.end(), TV::Zero() );
 
     #pragma omp parallel num_threads(n_threads)
@@ -88,6 +92,9 @@ void Simulation::MUSL(){
     } // end omp parallel
 
 
+    if (pbc)
+        PBCDelParticles();
+
     for (int l = 0; l<grid_nodes; l++){
         T mi = grid.mass[l];
         if (mi > 0)
-- 
2.43.0

