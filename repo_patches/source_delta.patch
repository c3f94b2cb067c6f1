From 4723de16847c5f72aa704a2441dafcb03cd07a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 01/68] fix: keep the sixth component in the vec6 constructor

---
 alsutils/include/alsutils/vec6.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alsutils/include/alsutils/vec6.hpp b/alsutils/include/alsutils/vec6.hpp
index b85a3e2..9a79001 100644
--- a/alsutils/include/alsutils/vec6.hpp
+++ b/alsutils/include/alsutils/vec6.hpp
@@ -34,7 +34,7 @@ struct vec6 {
 
     }
     __device__ __host__ vec6(T x, T y, T z, T v, T w, T u)
-        : x(x), y(y), z(z), v(v), w(w), u(0) {
+        : x(x), y(y), z(z), v(v), w(w), u(u) {
         // Empty
     }
 
-- 
2.43.0


From a695748bea57c5fb5865fcc905ba1a67640f29e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 02/68] fix: HLL and HLL3 return the left flux when the slowest
 wave speed is zero

---
 alsfvm/include/alsfvm/numflux/euler/HLL.hpp  | 4 +---
 alsfvm/include/alsfvm/numflux/euler/HLL3.hpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/alsfvm/include/alsfvm/numflux/euler/HLL.hpp b/alsfvm/include/alsfvm/numflux/euler/HLL.hpp
index d196970..2d6f671 100644
--- a/alsfvm/include/alsfvm/numflux/euler/HLL.hpp
+++ b/alsfvm/include/alsfvm/numflux/euler/HLL.hpp
@@ -60,9 +60,7 @@ public:
 
         computeHLLSpeeds<direction>(eq, left, right, speedLeft, speedRight);
 
-        if (speedLeft == 0) {
-            F = equation::euler::ConservedVariables<nsd>(0, rvec(0), 0);
-        } else if (speedLeft > 0) {
+        if (speedLeft >= 0) {
             eq.template computePointFlux<direction>(left, F);
         } else if (speedRight < 0) {
             eq.template computePointFlux<direction>(right, F);
diff --git a/alsfvm/include/alsfvm/numflux/euler/HLL3.hpp b/alsfvm/include/alsfvm/numflux/euler/HLL3.hpp
index 9639dba..1fc0b3c 100644
--- a/alsfvm/include/alsfvm/numflux/euler/HLL3.hpp
+++ b/alsfvm/include/alsfvm/numflux/euler/HLL3.hpp
@@ -79,9 +79,7 @@ public:
                 left.m ) / aa;
         us[direction] = sm;
 
-        if (speedLeft == 0) {
-            F = equation::euler::ConservedVariables<nsd>(0, rvec(0), 0);
-        } else if (speedLeft > 0) {
+        if (speedLeft >= 0) {
             F = fluxLeft;
         } else if (speedRight < 0) {
             F = fluxRight;
-- 
2.43.0


From 38b3fc43e7ad286e29f7869ac82409367d411bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 03/68] fix: the Roe flux of the linear equation is upwinding
 for negative states too

---
 alsfvm/include/alsfvm/numflux/linear/Roe.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alsfvm/include/alsfvm/numflux/linear/Roe.hpp b/alsfvm/include/alsfvm/numflux/linear/Roe.hpp
index d9891ff..720d69b 100644
--- a/alsfvm/include/alsfvm/numflux/linear/Roe.hpp
+++ b/alsfvm/include/alsfvm/numflux/linear/Roe.hpp
@@ -43,7 +43,7 @@ public:
 
 
         ConservedVariables fluxLeft;
-        eq.computePointFlux<direction>(AllVariables(fmax(left.u, real(0.0))), fluxLeft);
+        eq.computePointFlux<direction>(left, fluxLeft);
         F = fluxLeft;
 
         // This looks a bit weird, but it is OK. The basic principle is that AllVariables
-- 
2.43.0


From 37d345800ca0ce361fab8dccb0f5d743b5a0cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 04/68] fix: scale the fluxes and the diffusion in y and z to
 the cell lengths

---
 .../alsfvm/diffusion/TecnoDiffusionCPU.hpp    |  6 +++++-
 .../alsfvm/numflux/NumericalFluxCPU.hpp       |  3 +++
 alsfvm/src/diffusion/DiffusionFactory.cpp     | 16 +++++++--------
 alsfvm/src/diffusion/TecnoDiffusionCPU.cpp    | 20 +++++++++++--------
 alsfvm/src/numflux/NumericalFluxCPU.cpp       | 14 +++++++------
 5 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/alsfvm/include/alsfvm/diffusion/TecnoDiffusionCPU.hpp b/alsfvm/include/alsfvm/diffusion/TecnoDiffusionCPU.hpp
index 5163c27..e2214ee 100644
--- a/alsfvm/include/alsfvm/diffusion/TecnoDiffusionCPU.hpp
+++ b/alsfvm/include/alsfvm/diffusion/TecnoDiffusionCPU.hpp
@@ -42,7 +42,8 @@ public:
 
     TecnoDiffusionCPU(volume::VolumeFactory& volumeFactory,
         alsfvm::shared_ptr<reconstruction::tecno::TecnoReconstruction> reconstruction,
-        const simulator::SimulatorParameters& simulatorParameters);
+        const simulator::SimulatorParameters& simulatorParameters,
+        const rvec3& cellLengths);
 
     ///
     /// Applies numerical diffusion to the outputVolume given the data in conservedVolume.
@@ -78,6 +79,9 @@ private:
     alsfvm::shared_ptr<volume::Volume> entropyVariablesRight;
 
     Equation equation;
+
+    // The diffusion is scaled to the cell length in the x direction
+    const rvec3 cellLengths;
 };
 } // namespace diffusion
 } // namespace alsfvm
diff --git a/alsfvm/include/alsfvm/numflux/NumericalFluxCPU.hpp b/alsfvm/include/alsfvm/numflux/NumericalFluxCPU.hpp
index aca52e8..c0c192c 100644
--- a/alsfvm/include/alsfvm/numflux/NumericalFluxCPU.hpp
+++ b/alsfvm/include/alsfvm/numflux/NumericalFluxCPU.hpp
@@ -80,6 +80,9 @@ private:
     alsfvm::shared_ptr<volume::Volume> temporaryVolume;
 
     typename Equation::Parameters parameters;
+
+    // The net fluxes are scaled to the cell length in the x direction
+    const rvec3 cellLengths;
 };
 
 } // namespace alsfvm
diff --git a/alsfvm/src/diffusion/DiffusionFactory.cpp b/alsfvm/src/diffusion/DiffusionFactory.cpp
index 721f2d2..055cdef 100644
--- a/alsfvm/src/diffusion/DiffusionFactory.cpp
+++ b/alsfvm/src/diffusion/DiffusionFactory.cpp
@@ -53,11 +53,11 @@ alsfvm::shared_ptr<DiffusionOperator> DiffusionFactory::createDiffusionOperator(
             if (diffusionType == "tecnoroe") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::burgers::Burgers, RoeMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid.getCellLengths()));
             } else if (diffusionType == "tecnorusanov") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::burgers::Burgers, RusanovMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid.getCellLengths()));
             } else {
                 THROW("Unknown diffusion type " << diffusionType);
             }
@@ -66,11 +66,11 @@ alsfvm::shared_ptr<DiffusionOperator> DiffusionFactory::createDiffusionOperator(
             if (diffusionType == "tecnoroe") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::euler::Euler<1>, RoeMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid.getCellLengths()));
             } else if (diffusionType == "tecnorusanov") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::euler::Euler<1>, RusanovMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid.getCellLengths()));
             } else {
                 THROW("Unknown diffusion type " << diffusionType);
             }
@@ -79,11 +79,11 @@ alsfvm::shared_ptr<DiffusionOperator> DiffusionFactory::createDiffusionOperator(
             if (diffusionType == "tecnoroe") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::euler::Euler<2>, RoeMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid.getCellLengths()));
             } else if (diffusionType == "tecnorusanov") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::euler::Euler<2>, RusanovMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid.getCellLengths()));
             } else {
                 THROW("Unknown diffusion type " << diffusionType);
             }
@@ -92,11 +92,11 @@ alsfvm::shared_ptr<DiffusionOperator> DiffusionFactory::createDiffusionOperator(
             if (diffusionType == "tecnoroe") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::euler::Euler<3>, RoeMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid.getCellLengths()));
             } else if (diffusionType == "tecnorusanov") {
                 diffusionOperator.reset(new TecnoDiffusionCPU
                     <equation::euler::Euler<3>, RusanovMatrix>(volumeFactory, reconstruction,
-                        simulatorParameters));
+                        simulatorParameters, grid.getCellLengths()));
             } else {
                 THROW("Unknown diffusion type " << diffusionType);
             }
diff --git a/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp b/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
index ef83a80..b7bdf49 100644
--- a/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
+++ b/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
@@ -31,7 +31,8 @@ void applyDiffusionCPU(Equation equation, volume::Volume& outputVolume,
     volume::Volume& left, volume::Volume& right,
     volume::Volume& entropyVariablesLeft,
     volume::Volume& entropyVariablesRight,
-    const volume::Volume& conservedVolume) {
+    const volume::Volume& conservedVolume,
+    const real scaling) {
 
     typename Equation::Views entropyLeftView(entropyVariablesLeft);
     typename Equation::Views entropyRightView(entropyVariablesRight);
@@ -92,8 +93,9 @@ void applyDiffusionCPU(Equation equation, volume::Volume& outputVolume,
         };
 
         //outFile << (diffusion(middleIndex, rightIndex) - diffusion(leftIndex, middleIndex))[1] << std::endl;
-        equation.addToViewAt(outputView, middleIndexOuter, diffusion(middleIndexOuter,
-                rightIndexOuter) - diffusion(leftIndexOuter, middleIndexOuter));
+        equation.addToViewAt(outputView, middleIndexOuter,
+            scaling * (diffusion(middleIndexOuter,
+                    rightIndexOuter) - diffusion(leftIndexOuter, middleIndexOuter)));
     }, make_direction_vector(direction), make_direction_vector(direction));
 
 }
@@ -102,13 +104,15 @@ template<class Equation, template<class, int> class DiffusionMatrix>
 TecnoDiffusionCPU<Equation, DiffusionMatrix>::TecnoDiffusionCPU(
     volume::VolumeFactory& volumeFactory,
     alsfvm::shared_ptr<reconstruction::tecno::TecnoReconstruction> reconstruction,
-    const simulator::SimulatorParameters& simulatorParameters)
+    const simulator::SimulatorParameters& simulatorParameters,
+    const rvec3& cellLengths)
 
     :
     volumeFactory(volumeFactory),
     reconstruction(reconstruction),
     equation(static_cast<const typename Equation::Parameters&>
-        (simulatorParameters.getEquationParameters())) {
+        (simulatorParameters.getEquationParameters())),
+    cellLengths(cellLengths) {
     // empty
 }
 
@@ -146,21 +150,21 @@ void TecnoDiffusionCPU<Equation, DiffusionMatrix>::applyDiffusion(
                 *left, *right,
                 *entropyVariablesLeft,
                 *entropyVariablesRight,
-                conservedVolume);
+                conservedVolume, real(1));
         } else if (direction == 1) {
             applyDiffusionCPU<Equation, DiffusionMatrix, 1>(equation, outputVolume,
                 *reconstruction,
                 *left, *right,
                 *entropyVariablesLeft,
                 *entropyVariablesRight,
-                conservedVolume);
+                conservedVolume, cellLengths.x / cellLengths.y);
         } else if (direction == 2) {
             applyDiffusionCPU<Equation, DiffusionMatrix, 2>(equation, outputVolume,
                 *reconstruction,
                 *left, *right,
                 *entropyVariablesLeft,
                 *entropyVariablesRight,
-                conservedVolume);
+                conservedVolume, cellLengths.x / cellLengths.z);
         }
     }
 
diff --git a/alsfvm/src/numflux/NumericalFluxCPU.cpp b/alsfvm/src/numflux/NumericalFluxCPU.cpp
index eb0b084..d61aece 100644
--- a/alsfvm/src/numflux/NumericalFluxCPU.cpp
+++ b/alsfvm/src/numflux/NumericalFluxCPU.cpp
@@ -35,7 +35,7 @@ void computeNetFlux(const Equation& eq, const volume::Volume& left,
     volume::Volume& out,
     volume::Volume& temporaryVolume,
     real& waveSpeed, size_t numberOfGhostCells,
-    const ivec3 start, const ivec3 end) {
+    const ivec3 start, const ivec3 end, const real scaling) {
 
     ALSVINN_TIME_BLOCK(alsvinn, fvm, numflux);
     // We will automate the creation of these pointer arrays soon,
@@ -110,7 +110,8 @@ void computeNetFlux(const Equation& eq, const volume::Volume& left,
                 auto fluxLeftMiddle = (-1.0) * eq.fetchConservedVariables(temporaryViews,
                         middleIndex);
 
-                eq.addToViewAt(outViews, rightIndex, fluxMiddleRight + fluxLeftMiddle);
+                eq.addToViewAt(outViews, rightIndex,
+                    scaling * (fluxMiddleRight + fluxLeftMiddle));
 
             }
         }
@@ -155,7 +156,8 @@ NumericalFluxCPU<Flux, Equation, dimension>::NumericalFluxCPU(
           alsfvm::make_shared<memory::MemoryFactory>(deviceConfiguration)),
       reconstruction(reconstruction),
       parameters(static_cast<typename Equation::Parameters&>
-          (simulatorParameters->getEquationParameters())) {
+          (simulatorParameters->getEquationParameters())),
+      cellLengths(grid.getCellLengths()) {
     static_assert(dimension > 0, "We only support positive dimension!");
     static_assert(dimension < 4, "We only support dimension up to 3");
 
@@ -197,7 +199,7 @@ void NumericalFluxCPU<Flux, Equation, dimension>::computeFlux(
         *left, *right, start, end);
     computeNetFlux<Flux, Equation, 0>(eq, *left, *right, output,
         *temporaryVolume, waveSpeed.x,
-        getNumberOfGhostCells(), start, end);
+        getNumberOfGhostCells(), start, end, real(1));
 
     if (dimension > 1) {
         reconstruction->performReconstruction(conservedVariables, 1, 0,
@@ -205,7 +207,7 @@ void NumericalFluxCPU<Flux, Equation, dimension>::computeFlux(
         computeNetFlux<Flux, Equation, 1>(eq, *left, *right, output,
             *temporaryVolume,
             waveSpeed.y, getNumberOfGhostCells(),
-            start, end);
+            start, end, cellLengths.x / cellLengths.y);
     }
 
 
@@ -215,7 +217,7 @@ void NumericalFluxCPU<Flux, Equation, dimension>::computeFlux(
         computeNetFlux<Flux, Equation, 2>(eq, *left, *right, output,
             *temporaryVolume, waveSpeed.z,
             getNumberOfGhostCells(),
-            start, end);
+            start, end, cellLengths.x / cellLengths.z);
     }
 
 }
-- 
2.43.0


From 4550801ed8a769846b381951451e1de266fee481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 05/68] fix: the tecno fluxes are consistent for (nearly) equal
 states

---
 .../numflux/ScalarEntropyConservativeFlux.hpp |  9 ++++--
 alsfvm/include/alsfvm/numflux/tecno_utils.hpp | 28 +++++++++++--------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/alsfvm/include/alsfvm/numflux/ScalarEntropyConservativeFlux.hpp b/alsfvm/include/alsfvm/numflux/ScalarEntropyConservativeFlux.hpp
index e5e2519..d9941f5 100644
--- a/alsfvm/include/alsfvm/numflux/ScalarEntropyConservativeFlux.hpp
+++ b/alsfvm/include/alsfvm/numflux/ScalarEntropyConservativeFlux.hpp
@@ -43,9 +43,14 @@ public:
         auto leftEntropyVariable = eq.computeEntropyVariables(left);
         auto rightEntropyVariable = eq.computeEntropyVariables(right);
 
-        if (left.u ==
-            right.u) {// || (leftEntropyVariable - rightEntropyVariable).norm() < 1e-6) {
+        if (left.u == right.u) {
             eq.template computePointFlux<direction>(left, F);
+        } else if (fabs(right.u - left.u) < 1e-5) {
+            // The quotient below cancels for nearly equal states
+            typename Equation::ConservedVariables leftFlux, rightFlux;
+            eq.template computePointFlux<direction>(left, leftFlux);
+            eq.template computePointFlux<direction>(right, rightFlux);
+            F.u = (leftFlux.u + rightFlux.u) / 2;
         } else {
             auto leftEntropyPotential = eq.computeEntropyPotential(left);
             auto rightEntropyPotential = eq.computeEntropyPotential(right);
diff --git a/alsfvm/include/alsfvm/numflux/tecno_utils.hpp b/alsfvm/include/alsfvm/numflux/tecno_utils.hpp
index 33c3a5d..f73a728 100644
--- a/alsfvm/include/alsfvm/numflux/tecno_utils.hpp
+++ b/alsfvm/include/alsfvm/numflux/tecno_utils.hpp
@@ -26,24 +26,28 @@ inline __device__ __host__ real bar(real left, real right) {
 inline __device__ __host__ real diff(real left, real right) {
     return right - left;
 }
+
+//! Computes the logarithmic mean (right - left) / (log(right) - log(left)),
+//! which is left when left and right are equal.
+//!
+//! The quotient cancels when left is close to right, we then use the series
+//! expansion found in appendix B of
+//! Ismail, Roe. Affordable, entropy-consistent Euler flux functions II (2009)
 inline __device__ __host__ real ln(real left, real right) {
-    if (diff(left, right) == 0 || diff(log(left), log(right)) == 0) {
-        return 0;
+    const real zeta = left / right;
+    const real f = (zeta - 1) / (zeta + 1);
+    const real u = f * f;
+
+    if (u < 1e-4) {
+        return bar(left, right) / (1 + u / 3 + u * u / 5 + u * u * u / 7);
     }
 
-    return diff(left, right) / diff(log(left), log(right));
+    return diff(left, right) / -log(zeta);
 }
 
-//! Computes F/ln (left, right), but takes care if divLn==0,
-//! then it returns 0
+//! Computes F/ln (left, right)
 inline __device__ __host__ real divLn(real left, real right, real F) {
-    auto div = ln(left, right);
-
-    if (div == 0) {
-        return 0;
-    } else {
-        return F / div;
-    }
+    return F / ln(left, right);
 }
 
 inline __device__ __host__ real div(real a, real b) {
-- 
2.43.0


From 6165decfc5e6786aa56e4b62c014058fc3216b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 06/68] fix: the tecno1 flux of the three dimensional Euler
 equations includes the z component

---
 .../include/alsfvm/numflux/euler/Tecno1.hpp   | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp b/alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp
index 19706ad..5f8d2d3 100644
--- a/alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp
+++ b/alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp
@@ -67,19 +67,31 @@ __device__ __host__ inline  real Tecno1<3>::computeFlux(
         F[1] = bar(leftZ[4], rightZ[4]) / bar(leftZ[0], rightZ[0]) + bar(leftZ[1],
                 rightZ[1]) / bar(leftZ[0], rightZ[0]) * F[0];
         F[2] = bar(leftZ[2], rightZ[2]) / bar(leftZ[0], rightZ[0]) * F[0];
-        F[3] = 0; // assume 2D
+        F[3] = bar(leftZ[3], rightZ[3]) / bar(leftZ[0], rightZ[0]) * F[0];
         F[4] = 1.0 / (2 * bar(leftZ[0],
                     rightZ[0])) * ((gamma + 1) / (gamma - 1) * divLn(leftZ[0], rightZ[0],
-                    (F[0])) + bar(leftZ[1], rightZ[1]) * F[1] + bar(leftZ[2], rightZ[2]) * F[2]);
+                    (F[0])) + bar(leftZ[1], rightZ[1]) * F[1] + bar(leftZ[2], rightZ[2]) * F[2]
+                + bar(leftZ[3], rightZ[3]) * F[3]);
     } else  if (direction == 1) {
         F[0] = bar(leftZ[2], rightZ[2]) * ln(leftZ[4], rightZ[4]);
         F[1] = bar(leftZ[1], rightZ[1]) / bar(leftZ[0], rightZ[0]) * F[0];
         F[2] = bar(leftZ[4], rightZ[4]) / bar(leftZ[0], rightZ[0]) + bar(leftZ[2],
                 rightZ[2]) / bar(leftZ[0], rightZ[0]) * F[0];
-        F[3] = 0; // assume 2D
+        F[3] = bar(leftZ[3], rightZ[3]) / bar(leftZ[0], rightZ[0]) * F[0];
         F[4] = 1.0 / (2 * bar(leftZ[0],
                     rightZ[0])) * ((gamma + 1) / (gamma - 1) * divLn(leftZ[0], rightZ[0],
-                    (F[0])) + bar(leftZ[1], rightZ[1]) * F[1] + bar(leftZ[2], rightZ[2]) * F[2]);
+                    (F[0])) + bar(leftZ[1], rightZ[1]) * F[1] + bar(leftZ[2], rightZ[2]) * F[2]
+                + bar(leftZ[3], rightZ[3]) * F[3]);
+    } else  if (direction == 2) {
+        F[0] = bar(leftZ[3], rightZ[3]) * ln(leftZ[4], rightZ[4]);
+        F[1] = bar(leftZ[1], rightZ[1]) / bar(leftZ[0], rightZ[0]) * F[0];
+        F[2] = bar(leftZ[2], rightZ[2]) / bar(leftZ[0], rightZ[0]) * F[0];
+        F[3] = bar(leftZ[4], rightZ[4]) / bar(leftZ[0], rightZ[0]) + bar(leftZ[3],
+                rightZ[3]) / bar(leftZ[0], rightZ[0]) * F[0];
+        F[4] = 1.0 / (2 * bar(leftZ[0],
+                    rightZ[0])) * ((gamma + 1) / (gamma - 1) * divLn(leftZ[0], rightZ[0],
+                    (F[0])) + bar(leftZ[1], rightZ[1]) * F[1] + bar(leftZ[2], rightZ[2]) * F[2]
+                + bar(leftZ[3], rightZ[3]) * F[3]);
     }
 
     real leftSpeed = 0, rightSpeed = 0;
-- 
2.43.0


From d7bec99f20e7c601aae19cd6573113decd153058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 07/68] fix: the ENO stencil is extended on the side of the
 smaller difference of the stencil chosen so far

---
 alsfvm/src/reconstruction/ENOCPU.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/alsfvm/src/reconstruction/ENOCPU.cpp b/alsfvm/src/reconstruction/ENOCPU.cpp
index 55e1b51..60fb98f 100644
--- a/alsfvm/src/reconstruction/ENOCPU.cpp
+++ b/alsfvm/src/reconstruction/ENOCPU.cpp
@@ -61,6 +61,8 @@ void ENOCPU<order>::performReconstruction(const volume::Volume& inputVariables,
     }
 
     const ivec3 directionVector(direction == 0, direction == 1, direction == 2);
+    const size_t stride = directionVector.x + directionVector.y * nx +
+        directionVector.z * nx * ny;
 
     // make divided differences
     computeDividedDifferences(*inputVariables.getScalarMemoryArea(
@@ -140,9 +142,14 @@ void ENOCPU<order>::performReconstruction(const volume::Volume& inputVariables,
                     // differences, and each time we go left, we increment the shift.
                     int shift = 0;
 
+                    // The differences compared are those extending the stencil
+                    // chosen so far (starting at the cell shifted by shift).
                     for (size_t level = 0; level < order - 1; level++) {
-                        real dividedDifferenceRight = dividedDifferencesPointers[level][indexRight];
-                        real dividedDifferenceLeft = dividedDifferencesPointers[level][indexLeft];
+                        const size_t offset = shift * stride;
+                        real dividedDifferenceRight = dividedDifferencesPointers[level][indexRight -
+                                                  offset];
+                        real dividedDifferenceLeft = dividedDifferencesPointers[level][indexLeft -
+                                                 offset];
 
                         if (std::fabs(dividedDifferenceLeft) < std::fabs(dividedDifferenceRight)) {
                             // Now we choose the left stencil
@@ -221,11 +228,10 @@ void ENOCPU<order>::computeDividedDifferences(const memory::Memory<real>& input,
     assert(ny > int(2 * direction.y * level));
     assert(nz > int(2 * direction.z * level));
 
-    const int startX =        (direction.x == 0) * order + direction.x * level +
-        start.x;
-    const int startY = (ny > 1) * (direction.y == 0) * order + direction.y * level +
+    const int startX =        (direction.x == 0) * order + direction.x + start.x;
+    const int startY = (ny > 1) * (direction.y == 0) * order + direction.y +
         start.y;
-    const int startZ = (nz > 1) * (direction.z == 0) * order + direction.z * level +
+    const int startZ = (nz > 1) * (direction.z == 0) * order + direction.z +
         start.z;
 
     const int endX = nx -        ((direction.x == 0) * (order - 1) + direction.x *
-- 
2.43.0


From 16db1922af8c3bed60c5b49e47507683f7f71e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 08/68] fix: fluxes with wide stencils reserve ghost cells for
 the reconstruction of the whole stencil

---
 alsfvm/src/numflux/NumericalFluxCPU.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/numflux/NumericalFluxCPU.cpp b/alsfvm/src/numflux/NumericalFluxCPU.cpp
index d61aece..c18dfd4 100644
--- a/alsfvm/src/numflux/NumericalFluxCPU.cpp
+++ b/alsfvm/src/numflux/NumericalFluxCPU.cpp
@@ -227,8 +227,11 @@ void NumericalFluxCPU<Flux, Equation, dimension>::computeFlux(
 ///
 template<class Flux, class Equation, size_t dimension>
 size_t NumericalFluxCPU<Flux, Equation, dimension>::getNumberOfGhostCells() {
-    return std::max(getStencil<Flux>(Flux()).size() - 1,
-            reconstruction->getNumberOfGhostCells());
+    const size_t stencilSize = getStencil<Flux>(Flux()).size();
+
+    // The outermost cell of the stencil is reconstructed as well
+    return std::max(stencilSize - 1,
+            stencilSize / 2 - 1 + reconstruction->getNumberOfGhostCells());
 
 }
 
-- 
2.43.0


From f32ba12afc79116399071befc0ea40422122b77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 09/68] fix: the TeCNO diffusion treats the last interface and
 the y and z directions like the others

---
 alsfvm/src/diffusion/TecnoDiffusionCPU.cpp |  2 +-
 alsfvm/src/reconstruction/tecno/ENOCPU.cpp | 27 ++++++++++++++--------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp b/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
index b7bdf49..c315dd7 100644
--- a/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
+++ b/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
@@ -62,7 +62,7 @@ void applyDiffusionCPU(Equation equation, volume::Volume& outputVolume,
         equation.setViewAt(entropyRightView, leftIndex,
             RT * equation.computeEntropyVariables(conservedValuesLeft));
 
-    }, make_direction_vector(direction), make_direction_vector(direction));
+    }, make_direction_vector(direction));
 
 
 
diff --git a/alsfvm/src/reconstruction/tecno/ENOCPU.cpp b/alsfvm/src/reconstruction/tecno/ENOCPU.cpp
index 0cf6b86..cbc0c9a 100644
--- a/alsfvm/src/reconstruction/tecno/ENOCPU.cpp
+++ b/alsfvm/src/reconstruction/tecno/ENOCPU.cpp
@@ -53,6 +53,8 @@ void ENOCPU<order>::performReconstruction(const volume::Volume& leftInput,
     }
 
     const ivec3 directionVector(direction == 0, direction == 1, direction == 2);
+    const size_t stride = directionVector.x + directionVector.y * nx +
+        directionVector.z * nx * ny;
 
 
 
@@ -126,9 +128,14 @@ void ENOCPU<order>::performReconstruction(const volume::Volume& leftInput,
                     // differences, and each time we go left, we increment the shift.
                     int shift = 0;
 
+                    // The differences compared are those extending the stencil
+                    // chosen so far (starting at the cell shifted by shift).
                     for (size_t level = 0; level < order - 1; level++) {
-                        real dividedDifferenceRight = dividedDifferencesPointers[level][indexRight];
-                        real dividedDifferenceLeft = dividedDifferencesPointers[level][indexLeft];
+                        const size_t offset = shift * stride;
+                        real dividedDifferenceRight = dividedDifferencesPointers[level][indexRight -
+                                                  offset];
+                        real dividedDifferenceLeft = dividedDifferencesPointers[level][indexLeft -
+                                                 offset];
 
                         if (std::fabs(dividedDifferenceLeft) < std::fabs(dividedDifferenceRight)) {
                             // Now we choose the left stencil
@@ -149,9 +156,9 @@ void ENOCPU<order>::performReconstruction(const volume::Volume& leftInput,
 
                     for (int l = 0; l < order - 1; ++l) {
                         wCur[order + l]   = wCur[order + l - 1] +
-                            dividedDifferencesPointers[0][indexRight + l];
+                            dividedDifferencesPointers[0][indexRight + l * stride];
                         wCur[order - l - 2] = wCur[order - l - 1] -
-                            dividedDifferencesPointers[0][indexRight - l - 1];
+                            dividedDifferencesPointers[0][indexRight - (l + 1) * stride];
                     }
 
                     // Calculate wlR, wrR
@@ -211,13 +218,13 @@ void ENOCPU<order>::computeDividedDifferences(const memory::Memory<real>&
     assert(ny > 2 * direction.y * level);
     assert(nz > 2 * direction.z * level);
 
-    const size_t startX = direction.x * level;
-    const size_t startY = direction.y * level;
-    const size_t startZ = direction.z * level;
+    const size_t startX = direction.x;
+    const size_t startY = direction.y;
+    const size_t startZ = direction.z;
 
-    const size_t endX = nx - direction.x * level;
-    const size_t endY = ny - direction.y * level;
-    const size_t endZ = nz - direction.z * level;
+    const size_t endX = nx - direction.x * (level - 1);
+    const size_t endY = ny - direction.y * (level - 1);
+    const size_t endZ = nz - direction.z * (level - 1);
 
     auto leftView = leftInput.getView();
     auto rightView = rightInput.getView();
-- 
2.43.0


From 253bbb487b7fea2f4d466bb6b39e7d3786982929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 10/68] fix: the eigenvectors of the y and z flux jacobians are
 given in the original coordinates

---
 .../include/alsfvm/equation/euler/Euler.hpp   | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/alsfvm/include/alsfvm/equation/euler/Euler.hpp b/alsfvm/include/alsfvm/equation/euler/Euler.hpp
index d252918..a63ac80 100644
--- a/alsfvm/include/alsfvm/equation/euler/Euler.hpp
+++ b/alsfvm/include/alsfvm/equation/euler/Euler.hpp
@@ -460,6 +460,19 @@ __device__ __host__ matrix5 Euler<3>::computeEigenVectorMatrix(
         matrixWithEigenVectors(4, 3) = primitive.u.z;
         matrixWithEigenVectors(4, 4) = H + primitive.u.x * a;
 
+        // Rotate the momentum components back
+        for (int column = 0; column < 5; ++column) {
+            const real normal = matrixWithEigenVectors(1, column);
+
+            if (direction == 1) {
+                matrixWithEigenVectors(1, column) = -matrixWithEigenVectors(2, column);
+                matrixWithEigenVectors(2, column) = normal;
+            } else if (direction == 2) {
+                matrixWithEigenVectors(1, column) = -matrixWithEigenVectors(3, column);
+                matrixWithEigenVectors(3, column) = normal;
+            }
+        }
+
         return matrixWithEigenVectors.normalized();
     }
 
@@ -544,6 +557,15 @@ __device__ __host__ matrix4 Euler<2>::computeEigenVectorMatrix(
         matrixWithEigenVectors(3, 2) = primitive.u.y;
         matrixWithEigenVectors(3, 3) = H + primitive.u.x * a;
 
+        if (direction == 1) {
+            // Rotate the momentum components back
+            for (int column = 0; column < 4; ++column) {
+                const real normal = matrixWithEigenVectors(1, column);
+                matrixWithEigenVectors(1, column) = -matrixWithEigenVectors(2, column);
+                matrixWithEigenVectors(2, column) = normal;
+            }
+        }
+
         return matrixWithEigenVectors;
     }
 
-- 
2.43.0


From 189718186d0ee1cf79dbecf6b4244a28905de2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 11/68] fix: refuse grids with fewer cells than ghost cells

---
 alsfvm/src/boundary/BoundaryCPU.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/alsfvm/src/boundary/BoundaryCPU.cpp b/alsfvm/src/boundary/BoundaryCPU.cpp
index 57d95ad..0f385c8 100644
--- a/alsfvm/src/boundary/BoundaryCPU.cpp
+++ b/alsfvm/src/boundary/BoundaryCPU.cpp
@@ -35,14 +35,15 @@ void applyBoundary(volume::Volume& volume, const size_t dimensions,
     const size_t ny = volume.getTotalNumberOfYCells();
     const size_t nz = volume.getTotalNumberOfZCells();
 
-    if (nx < 2 * numberOfGhostCells || ((dimensions > 1)
-            && ny < 2 * numberOfGhostCells) || ((dimensions > 2)
-            && nz < 2 * numberOfGhostCells) ) {
+    // nx, ny and nz include the ghost cells
+    if (nx < 3 * numberOfGhostCells || ((dimensions > 1)
+            && ny < 3 * numberOfGhostCells) || ((dimensions > 2)
+            && nz < 3 * numberOfGhostCells) ) {
         THROW("Too few cells to apply boundary condition. We got (nx, ny, nz)=("
             << nx << ", " << ny << ", " << nz << "), but numberOfGhostCells = " <<
             numberOfGhostCells
             << std::endl << std::endl <<
-            "We require at least double the number of cells in each direction");
+            "We require at least as many cells as ghost cells in each direction");
     }
 
     // We need these two assertions for this to work (else we need fancier indexing)
-- 
2.43.0


From 7fed9f2716a9085ca79b9fd858a394c63968e334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:01 +0000
Subject: [PATCH 12/68] fix: the wave speed of the Godunov flux for
 Buckley-Leverett covers the states between the two sides

---
 .../alsfvm/numflux/buckleyleverett/Godunov.hpp       | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/alsfvm/include/alsfvm/numflux/buckleyleverett/Godunov.hpp b/alsfvm/include/alsfvm/numflux/buckleyleverett/Godunov.hpp
index b4d1c70..14e1d86 100644
--- a/alsfvm/include/alsfvm/numflux/buckleyleverett/Godunov.hpp
+++ b/alsfvm/include/alsfvm/numflux/buckleyleverett/Godunov.hpp
@@ -55,8 +55,18 @@ public:
         // This looks a bit weird, but it is OK. The basic principle is that AllVariables
         // is both a conservedVariable and an extra variable, hence we need to pass
         // it twice since this function expects both.
-        return fmax(eq.computeWaveSpeed<direction>(left, left),
+        const real waveSpeed = fmax(eq.computeWaveSpeed<direction>(left, left),
                 eq.computeWaveSpeed<direction>(right, right));
+
+        // The flux is not convex, hence the fastest wave can have a value strictly
+        // between left and right. The derivative is largest at u=1/2.
+        const AllVariables fastest(real(0.5));
+
+        if (fmin(left.u, right.u) < fastest.u && fastest.u < fmax(left.u, right.u)) {
+            return fmax(waveSpeed, eq.computeWaveSpeed<direction>(fastest, fastest));
+        }
+
+        return waveSpeed;
     }
 };
 } // namespace alsfvm
-- 
2.43.0


From 48ff55567f56b82df4b9daf1ac330f5e1d465c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:53 +0000
Subject: [PATCH 13/68] fix: netcdf output of grids with different numbers of
 cells in each direction

---
 alsfvm/src/io/NetCDFMPIWriter.cpp | 12 ++++++++++--
 alsfvm/src/io/NetCDFWriter.cpp    |  8 ++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/io/NetCDFMPIWriter.cpp b/alsfvm/src/io/NetCDFMPIWriter.cpp
index 2e51280..dc40072 100644
--- a/alsfvm/src/io/NetCDFMPIWriter.cpp
+++ b/alsfvm/src/io/NetCDFMPIWriter.cpp
@@ -120,6 +120,14 @@ NetCDFMPIWriter::dimension_vector NetCDFMPIWriter::createDimensions(
     dimensions[1] = ydim;
     dimensions[2] = zdim;
 
+    // netcdf varies the last index fastest, this has to match the order used
+    // for the positions and sizes in writeMemory
+    if (grid.getGlobalSize()[2] > 1) {
+        std::swap(dimensions[0], dimensions[2]);
+    } else if (grid.getGlobalSize()[1] > 1) {
+        std::swap(dimensions[0], dimensions[1]);
+    }
+
     return dimensions;
 }
 
@@ -195,13 +203,13 @@ void NetCDFMPIWriter::writeMemory(netcdf_raw_ptr baseGroup,
     auto localSize = alsutils::mpi::to_mpi_offset(grid.getDimensions());
 
     // we need to exhcange the order since netcdf uses y major.
-    if (grid.getActiveDimension() == 2) {
+    if (grid.getGlobalSize()[2] == 1 && grid.getGlobalSize()[1] > 1) {
         std::swap(globalPosition[0], globalPosition[1]);
         std::swap(localSize[0], localSize[1]);
     }
 
     // we need to exhcange the order since netcdf uses z major.
-    if (grid.getActiveDimension() == 3) {
+    if (grid.getGlobalSize()[2] > 1) {
         std::swap(globalPosition[0], globalPosition[2]);
         std::swap(localSize[0], localSize[2]);
 
diff --git a/alsfvm/src/io/NetCDFWriter.cpp b/alsfvm/src/io/NetCDFWriter.cpp
index dbd0ebd..45db062 100644
--- a/alsfvm/src/io/NetCDFWriter.cpp
+++ b/alsfvm/src/io/NetCDFWriter.cpp
@@ -88,6 +88,14 @@ std::array<netcdf_raw_ptr, 3> NetCDFWriter::createDimensions(
     dimensions[1] = ydim;
     dimensions[2] = zdim;
 
+    // netcdf varies the last index fastest, the cells are stored with x varying
+    // fastest
+    if (volume.getNumberOfZCells() > 1) {
+        std::swap(dimensions[0], dimensions[2]);
+    } else if (volume.getNumberOfYCells() > 1) {
+        std::swap(dimensions[0], dimensions[1]);
+    }
+
     return dimensions;
 
 }
-- 
2.43.0


From 59362d4c3f49d86b65996f9a3f0c87e0c08fd255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 14/68] fix: rounding of the save times does not add a save
 after the end time

---
 .../include/alsfvm/io/FixedIntervalWriter.hpp |  3 +++
 alsfvm/src/io/FixedIntervalWriter.cpp         | 21 ++++++++++++++-----
 .../alsuq/stats/FixedIntervalStatistics.hpp   |  2 ++
 alsuq/src/stats/FixedIntervalStatistics.cpp   | 17 ++++++++++++---
 4 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/alsfvm/include/alsfvm/io/FixedIntervalWriter.hpp b/alsfvm/include/alsfvm/io/FixedIntervalWriter.hpp
index 20e6d89..a3ceb39 100644
--- a/alsfvm/include/alsfvm/io/FixedIntervalWriter.hpp
+++ b/alsfvm/include/alsfvm/io/FixedIntervalWriter.hpp
@@ -59,8 +59,11 @@ public:
     virtual void finalize(const grid::Grid& grid,
         const simulator::TimestepInformation& timestepInformation) override;
 private:
+    real getNextSaveTime() const;
+
     alsfvm::shared_ptr<Writer> writer;
     const real timeInterval;
+    const real endTime;
     size_t numberSaved;
     const bool writeInitialTimestep;
 
diff --git a/alsfvm/src/io/FixedIntervalWriter.cpp b/alsfvm/src/io/FixedIntervalWriter.cpp
index c7a8c0c..ea2087d 100644
--- a/alsfvm/src/io/FixedIntervalWriter.cpp
+++ b/alsfvm/src/io/FixedIntervalWriter.cpp
@@ -16,13 +16,14 @@
 #include "alsfvm/io/FixedIntervalWriter.hpp"
 #include <iostream>
 #include <algorithm>
+#include <cmath>
 
 namespace alsfvm {
 namespace io {
 
 FixedIntervalWriter::FixedIntervalWriter(alsfvm::shared_ptr<Writer>& writer,
-    real timeInterval, real, bool writeInitialTimestep, real startTime)
-    : writer(writer), timeInterval(timeInterval), numberSaved(0),
+    real timeInterval, real endTime, bool writeInitialTimestep, real startTime)
+    : writer(writer), timeInterval(timeInterval), endTime(endTime), numberSaved(0),
       writeInitialTimestep(writeInitialTimestep), startTime(startTime) {
     if (!writeInitialTimestep) {
         numberSaved = 1;
@@ -35,7 +36,7 @@ void FixedIntervalWriter::write(const volume::Volume& conservedVariables,
     const simulator::TimestepInformation& timestepInformation) {
     const real currentTime = timestepInformation.getCurrentTime();
 
-    if (currentTime >= numberSaved * timeInterval + startTime) {
+    if (currentTime >= getNextSaveTime()) {
         writer->write(conservedVariables, grid, timestepInformation);
         numberSaved++;
     }
@@ -45,8 +46,7 @@ void FixedIntervalWriter::write(const volume::Volume& conservedVariables,
 real FixedIntervalWriter::adjustTimestep(real dt,
     const simulator::TimestepInformation& timestepInformation) const {
     if (numberSaved > 0) {
-        const real nextSaveTime = numberSaved * timeInterval + startTime;
-        return std::min(dt, nextSaveTime - timestepInformation.getCurrentTime());
+        return std::min(dt, getNextSaveTime() - timestepInformation.getCurrentTime());
     } else {
         return dt;
     }
@@ -57,5 +57,16 @@ void FixedIntervalWriter::finalize(const grid::Grid& grid,
     writer->finalize(grid, timestepInformation);
 }
 
+real FixedIntervalWriter::getNextSaveTime() const {
+    const real nextSaveTime = numberSaved * timeInterval + startTime;
+
+    // Rounding must not put the last save before (or after) the end time
+    if (std::abs(nextSaveTime - endTime) < 1e-8 * timeInterval) {
+        return endTime;
+    }
+
+    return nextSaveTime;
+}
+
 }
 }
diff --git a/alsuq/include/alsuq/stats/FixedIntervalStatistics.hpp b/alsuq/include/alsuq/stats/FixedIntervalStatistics.hpp
index 325019b..7cd2f06 100644
--- a/alsuq/include/alsuq/stats/FixedIntervalStatistics.hpp
+++ b/alsuq/include/alsuq/stats/FixedIntervalStatistics.hpp
@@ -68,6 +68,8 @@ protected:
         const alsfvm::simulator::TimestepInformation& timestepInformation) override;
 
 private:
+    real getNextSaveTime() const;
+
     alsfvm::shared_ptr<Statistics> statistics;
     const real timeInterval;
     const real endTime;
diff --git a/alsuq/src/stats/FixedIntervalStatistics.cpp b/alsuq/src/stats/FixedIntervalStatistics.cpp
index e17eb5e..b99bd96 100644
--- a/alsuq/src/stats/FixedIntervalStatistics.cpp
+++ b/alsuq/src/stats/FixedIntervalStatistics.cpp
@@ -15,6 +15,7 @@
 
 #include "alsuq/stats/FixedIntervalStatistics.hpp"
 #include "alsutils/log.hpp"
+#include <cmath>
 
 namespace alsuq {
 namespace stats {
@@ -33,8 +34,7 @@ FixedIntervalStatistics::FixedIntervalStatistics(alsfvm::shared_ptr<Statistics>&
 real FixedIntervalStatistics::adjustTimestep(real dt,
     const alsfvm::simulator::TimestepInformation& timestepInformation) const {
     if (numberSaved > 0) {
-        const real nextSaveTime = numberSaved * timeInterval;
-        return std::min(dt, nextSaveTime - timestepInformation.getCurrentTime());
+        return std::min(dt, getNextSaveTime() - timestepInformation.getCurrentTime());
     } else {
         return dt;
     }
@@ -74,7 +74,7 @@ void FixedIntervalStatistics::computeStatistics(const alsfvm::volume::Volume&
         numberSaved = size_t(!writeInitialTimestep);
     }
 
-    if (currentTime >= numberSaved * timeInterval) {
+    if (currentTime >= getNextSaveTime()) {
         ALSVINN_LOG(INFO, "Computing statistics, currentTime = " << currentTime << ", "
             << "\n\tnumberSaves = " << numberSaved
             << "\n\ttimeInterval = " << timeInterval
@@ -85,5 +85,16 @@ void FixedIntervalStatistics::computeStatistics(const alsfvm::volume::Volume&
     }
 }
 
+real FixedIntervalStatistics::getNextSaveTime() const {
+    const real nextSaveTime = numberSaved * timeInterval;
+
+    // Rounding must not put the last save before (or after) the end time
+    if (std::abs(nextSaveTime - endTime) < 1e-8 * timeInterval) {
+        return endTime;
+    }
+
+    return nextSaveTime;
+}
+
 }
 }
-- 
2.43.0


From 3addb0ecb7b67e3563b08fcf4778a8513e02ed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 15/68] fix: the DLL writer honours create_function NONE,
 releases the plug-in's data and runs without MPI configuration

---
 alsfvm/src/io/DLLWriter.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/alsfvm/src/io/DLLWriter.cpp b/alsfvm/src/io/DLLWriter.cpp
index 25aed9a..e4d3d8e 100644
--- a/alsfvm/src/io/DLLWriter.cpp
+++ b/alsfvm/src/io/DLLWriter.cpp
@@ -43,15 +43,26 @@ DLLWriter::DLLWriter(const std::string& basename,
         }
     }
 
-    auto createFunction =
-        boost::dll::import<void* (const char*, const char*, void*)>(filename,
-            createFunctionName);
-
-    dllData = createFunction("alsvinn",
-            (std::string("https://github.com/alsvinn/alsvinn git") +
-                alsutils::getVersionControlID()).c_str(),
-            parametersStruct
-        );
+    if (boost::algorithm::to_lower_copy(createFunctionName) != "none") {
+        auto createFunction =
+            boost::dll::import<void* (const char*, const char*, void*)>(filename,
+                createFunctionName);
+
+        dllData = createFunction("alsvinn",
+                (std::string("https://github.com/alsvinn/alsvinn git") +
+                    alsutils::getVersionControlID()).c_str(),
+                parametersStruct
+            );
+
+        const std::string deleteFunctionName =
+            parameters.contains("delete_function") ?
+            parameters.getString("delete_function") : "none";
+
+        if (boost::algorithm::to_lower_copy(deleteFunctionName) != "none") {
+            deleteFunction = boost::dll::import<void(DLLData)>(filename,
+                    deleteFunctionName);
+        }
+    }
 
     auto newTimestepFunctionName =
         parameters.getString("new_timestep_function");
@@ -80,7 +91,7 @@ DLLWriter::DLLWriter(const std::string& basename,
             (filename, setMpiCommFunctionName);
 
         setMpiCommFunction(dllData, parametersStruct,
-            mpiConfigration->getCommunicator());
+            mpiConfigration ? mpiConfigration->getCommunicator() : MPI_COMM_SELF);
     }
 
     auto needsDataOnHostFunctionName =
-- 
2.43.0


From 138e7a1e84d40eabc35e83de94920d6eca96e1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 16/68] fix: plug-in outputs of parallel runs receive mpi_rank
 and mpi_size

---
 alsfvm/src/io/MpiWriterFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/io/MpiWriterFactory.cpp b/alsfvm/src/io/MpiWriterFactory.cpp
index b45cfc2..c7267f9 100644
--- a/alsfvm/src/io/MpiWriterFactory.cpp
+++ b/alsfvm/src/io/MpiWriterFactory.cpp
@@ -41,9 +41,9 @@ alsfvm::shared_ptr<Writer> MpiWriterFactory::createWriter(
                 configuration->getCommunicator(),
                 configuration->getInfo()));
     } else if (name == "python") {
-        writer.reset(new PythonScript(baseFilename, parameters, configuration));
+        writer.reset(new PythonScript(baseFilename, parameterCopy, configuration));
     } else if (name == "dll") {
-        writer.reset(new DLLWriter(baseFilename, parameters, configuration));
+        writer.reset(new DLLWriter(baseFilename, parameterCopy, configuration));
     } else {
         THROW("Unknown writer " << name << std::endl << "Does not have MPI support.");
     }
-- 
2.43.0


From 082a90ff071569e8f83522799e02d75b9a79a24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 17/68] fix: functionals of parallel runs are written at the
 position of the process

---
 alsfvm/src/functional/IntervalFunctionalWriter.cpp  | 2 +-
 alsfvm/src/functional/TimeIntegrationFunctional.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/functional/IntervalFunctionalWriter.cpp b/alsfvm/src/functional/IntervalFunctionalWriter.cpp
index 5be53bd..ca868f3 100644
--- a/alsfvm/src/functional/IntervalFunctionalWriter.cpp
+++ b/alsfvm/src/functional/IntervalFunctionalWriter.cpp
@@ -49,7 +49,7 @@ void IntervalFunctionalWriter::write(const volume::Volume& conservedVariables,
             grid.getTop(),
             functionalSize,
             grid.getBoundaryConditions(),
-            grid.getGlobalPosition(),
+            (grid.getGlobalPosition() / grid.getDimensions()) * functionalSize,
             numberOfNodes * functionalSize);
 
         ALSVINN_LOG(INFO, "modifiedGrid.getDimensions().x = " <<
diff --git a/alsfvm/src/functional/TimeIntegrationFunctional.cpp b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
index 1fde1c9..de7ebad 100644
--- a/alsfvm/src/functional/TimeIntegrationFunctional.cpp
+++ b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
@@ -55,7 +55,7 @@ void TimeIntegrationFunctional::finalize(const grid::Grid& grid,
         grid.getTop(),
         functionalSize,
         grid.getBoundaryConditions(),
-        grid.getGlobalPosition(),
+        (grid.getGlobalPosition() / grid.getDimensions()) * functionalSize,
         numberOfNodes * functionalSize);
 
     writer->write(*conservedVolume, smallerGrid, timestepInformation);
-- 
2.43.0


From 459182a675e27694a01e40e6c7525446183b88af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 18/68] fix: only interior cells are checked against the
 constraints

---
 alsfvm/include/alsfvm/volume/volume_foreach.hpp | 8 ++++++--
 alsfvm/src/equation/CPUCellComputer.cpp         | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/alsfvm/include/alsfvm/volume/volume_foreach.hpp b/alsfvm/include/alsfvm/volume/volume_foreach.hpp
index 67c506d..cb1dc9d 100644
--- a/alsfvm/include/alsfvm/volume/volume_foreach.hpp
+++ b/alsfvm/include/alsfvm/volume/volume_foreach.hpp
@@ -286,10 +286,14 @@ inline void transform_volume(const Volume& in, Volume& out,
 ///    // Do something with in or index
 /// });
 /// \endcode
+/// \param offsetStart the triple deciding the starting index
+/// \param offsetEnd the offset for end (must be non-negative!)
 ///
 template<class VariableStruct>
 inline void for_each_cell(const Volume& in,
-    const std::function<void(const VariableStruct&, size_t index)>& function) {
+    const std::function<void(const VariableStruct&, size_t index)>& function,
+    ivec3 offsetStart = {0, 0, 0},
+    ivec3 offsetEnd = {0, 0, 0}) {
     std::array < const real*, sizeof(VariableStruct) / sizeof(real) > pointersIn;
     pointersIn.fill(nullptr);
 
@@ -304,7 +308,7 @@ inline void for_each_cell(const Volume& in,
 
     for_each_cell_index(in, [&](size_t index) {
         function(expandVariableStruct<VariableStruct>(pointersIn, index), index);
-    });
+    }, offsetStart, offsetEnd);
 }
 
 ///
diff --git a/alsfvm/src/equation/CPUCellComputer.cpp b/alsfvm/src/equation/CPUCellComputer.cpp
index 86147d3..f606d3b 100644
--- a/alsfvm/src/equation/CPUCellComputer.cpp
+++ b/alsfvm/src/equation/CPUCellComputer.cpp
@@ -83,6 +83,10 @@ bool CPUCellComputer<Equation>::obeysConstraints(const volume::Volume&
     bool obeys = true;
     Equation eq(parameters);
 
+    // The ghost cells are not part of the solution (with MPI, their corners are never set)
+    const ivec3 ghostCells = conservedVariables.getNumberOfGhostCells();
+
+
     volume::for_each_cell<typename Equation::ConservedVariables>(conservedVariables,
         [&obeys,
             &eq](const typename Equation::ConservedVariables & conserved,
@@ -119,7 +123,7 @@ bool CPUCellComputer<Equation>::obeysConstraints(const volume::Volume&
             std::cerr << "Does not obey constraint at" << index << std::endl;
             obeys = false;
         }
-    });
+    }, ghostCells, ghostCells);
 
     return obeys;
 }
-- 
2.43.0


From 3cc341ad6072effab7a385813430f32365f666b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 19/68] fix: refuse to split a direction into single layers of
 cells

---
 alsfvm/src/mpi/domain/CartesianDecomposition.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/alsfvm/src/mpi/domain/CartesianDecomposition.cpp b/alsfvm/src/mpi/domain/CartesianDecomposition.cpp
index 1242418..5d854e2 100644
--- a/alsfvm/src/mpi/domain/CartesianDecomposition.cpp
+++ b/alsfvm/src/mpi/domain/CartesianDecomposition.cpp
@@ -55,6 +55,12 @@ DomainInformationPtr CartesianDecomposition::decompose(ConfigurationPtr
                 << "\tnumberOfProcessors assigned: " << numberOfProcessors[i] << "\n"
                 << "\tnumberOfCells assigned      : " << dimensions[i] << "\n");
         }
+
+        // A block of a single layer of cells would be a grid of lower dimension
+        if (i > 0 && dimensions[i] > 1 && dimensions[i] == numberOfProcessors[i]) {
+            THROW("Error in domain decompositon. In direction " << i << "\n"
+                << "\tthere is only one cell for each processor");
+        }
     }
 
 
-- 
2.43.0


From 7effbc94ead6ec9c3edd0bbf08952591c4017e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 20/68] fix: interpolation in three dimensions averages over
 eight cells

---
 alsfvm/include/alsfvm/volume/interpolate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alsfvm/include/alsfvm/volume/interpolate.hpp b/alsfvm/include/alsfvm/volume/interpolate.hpp
index 6c1547d..8c2c235 100644
--- a/alsfvm/include/alsfvm/volume/interpolate.hpp
+++ b/alsfvm/include/alsfvm/volume/interpolate.hpp
@@ -52,7 +52,7 @@ void interpolate<3>(memory::View<real>& out, memory::View<const real>& in,
         }
     }
 
-    out.at(x, y, z) /= 16;
+    out.at(x, y, z) /= 8;
 }
 
 template<size_t dimension>
-- 
2.43.0


From 2479431525fc430b6dd368181924c648cceab2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 21/68] fix: interpolation between volumes with ghost cells
 starts at the first interior cell

---
 alsfvm/include/alsfvm/volume/interpolate.hpp | 43 +++++++++++---------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/alsfvm/include/alsfvm/volume/interpolate.hpp b/alsfvm/include/alsfvm/volume/interpolate.hpp
index 8c2c235..9dfb2c5 100644
--- a/alsfvm/include/alsfvm/volume/interpolate.hpp
+++ b/alsfvm/include/alsfvm/volume/interpolate.hpp
@@ -23,31 +23,31 @@ namespace volume {
 
 template<size_t dimension>
 void interpolate(memory::View<real>& out, memory::View<const real>& in,
-    size_t x, size_t y, size_t z);
+    size_t x, size_t y, size_t z, size_t xIn, size_t yIn, size_t zIn);
 
 template<>
 void interpolate<1>(memory::View<real>& out, memory::View<const real>& in,
-    size_t x, size_t y, size_t z) {
-    out.at(x, y, z) = (in.at(2 * x, y, z) + in.at(2 * x + 1, y, z)) / 2.0;
+    size_t x, size_t y, size_t z, size_t xIn, size_t yIn, size_t zIn) {
+    out.at(x, y, z) = (in.at(xIn, yIn, zIn) + in.at(xIn + 1, yIn, zIn)) / 2.0;
 }
 
 template<>
 void interpolate<2>(memory::View<real>& out, memory::View<const real>& in,
-    size_t x, size_t y, size_t z) {
-    out.at(x, y, z) = (in.at(2 * x, 2 * y, z) + in.at(2 * x + 1, 2 * y, z)
-            + in.at(2 * x, 2 * y + 1, z) + in.at(2 * x + 1, 2 * y + 1, z)) / 4.0;
+    size_t x, size_t y, size_t z, size_t xIn, size_t yIn, size_t zIn) {
+    out.at(x, y, z) = (in.at(xIn, yIn, zIn) + in.at(xIn + 1, yIn, zIn)
+            + in.at(xIn, yIn + 1, zIn) + in.at(xIn + 1, yIn + 1, zIn)) / 4.0;
 }
 
 template<>
 void interpolate<3>(memory::View<real>& out, memory::View<const real>& in,
-    size_t x, size_t y, size_t z) {
+    size_t x, size_t y, size_t z, size_t xIn, size_t yIn, size_t zIn) {
     out.at(x, y, z) = 0;
 
     // Do this with for-loop because there are just too many combinations
     for (size_t i = 0; i < 2; ++i) {
         for (size_t j = 0; j < 2; ++j) {
             for (size_t k = 0; k < 2; ++k) {
-                out.at(x, y, z) += in.at(2 * x + k, 2 * y + j, 2 * z + i);
+                out.at(x, y, z) += in.at(xIn + k, yIn + j, zIn + i);
             }
         }
     }
@@ -57,26 +57,29 @@ void interpolate<3>(memory::View<real>& out, memory::View<const real>& in,
 
 template<size_t dimension>
 inline void interpolate(Volume& out, const Volume& in) {
-    if (out.getNumberOfXCells() != in.getNumberOfXCells() / 2) {
+    bool hasZ = dimension > 2;
+    bool hasY = dimension > 1;
+
+    if (2 * out.getNumberOfXCells() != in.getNumberOfXCells()
+        || (hasY ? 2 : 1) * out.getNumberOfYCells() != in.getNumberOfYCells()
+        || (hasZ ? 2 : 1) * out.getNumberOfZCells() != in.getNumberOfZCells()) {
         THROW("Currently we only support doing interpolation with the ration 2 to 1.");
     }
 
-    size_t nx = out.getTotalNumberOfXCells();
-    size_t ny = out.getTotalNumberOfYCells();
-    size_t nz = out.getTotalNumberOfZCells();
-
-    size_t ng = out.getNumberOfXGhostCells();
-    bool hasZ = dimension > 2;
-    bool hasY = dimension > 1;
+    const ivec3 ghostOut = out.getNumberOfGhostCells();
+    const ivec3 ghostIn = in.getNumberOfGhostCells();
 
     for (size_t var = 0; var < out.getNumberOfVariables(); ++var) {
         auto viewOut = out.getScalarMemoryArea(var)->getView();
         auto viewIn = in.getScalarMemoryArea(var)->getView();
 
-        for (size_t z = hasZ * ng; z < nz - hasZ * ng ; ++z) {
-            for (size_t y = hasY * ng; y < ny - hasY * ng; ++y) {
-                for (size_t x = ng; x < nx - ng; ++x) {
-                    interpolate<dimension>(viewOut, viewIn, x, y, z);
+        for (size_t z = 0; z < out.getNumberOfZCells(); ++z) {
+            for (size_t y = 0; y < out.getNumberOfYCells(); ++y) {
+                for (size_t x = 0; x < out.getNumberOfXCells(); ++x) {
+                    interpolate<dimension>(viewOut, viewIn,
+                        x + ghostOut.x, y + ghostOut.y, z + ghostOut.z,
+                        2 * x + ghostIn.x, (hasY ? 2 : 1) * y + ghostIn.y,
+                        (hasZ ? 2 : 1) * z + ghostIn.z);
                 }
             }
         }
-- 
2.43.0


From 6d95cb29e6d1bcba78a04ed967ba6cf89cb15a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 22/68] fix: setting a volume from one with another ghost layer
 copies the interior cells

---
 alsfvm/src/volume/Volume.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/alsfvm/src/volume/Volume.cpp b/alsfvm/src/volume/Volume.cpp
index ecb0fe1..9b4135f 100644
--- a/alsfvm/src/volume/Volume.cpp
+++ b/alsfvm/src/volume/Volume.cpp
@@ -316,7 +316,29 @@ void Volume::setVolume(const Volume& other) {
 
     // Base case.
     if (nxOther == nx && nyOther == ny && nzOther == nz) {
-        other.copyTo(*this);
+        if (other.getTotalDimensions() == getTotalDimensions()) {
+            other.copyTo(*this);
+            return;
+        }
+
+        // The ghost layers differ, only the interior cells correspond.
+        const ivec3 ghost = getNumberOfGhostCells();
+        std::vector<real> interior(nx * ny * nz);
+
+        for (size_t var = 0; var < getNumberOfVariables(); ++var) {
+            other.copyInternalCells(var, interior.data(), interior.size());
+            auto view = getScalarMemoryArea(var)->getView();
+
+            for (size_t z = 0; z < nz; ++z) {
+                for (size_t y = 0; y < ny; ++y) {
+                    for (size_t x = 0; x < nx; ++x) {
+                        view.at(x + ghost.x, y + ghost.y, z + ghost.z) =
+                            interior[(z * ny + y) * nx + x];
+                    }
+                }
+            }
+        }
+
         return;
     }
 
-- 
2.43.0


From 60212d8a907e91feeddefd87fc5216ef3aff901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 23/68] fix: volumes refuse operands of another size

---
 alsfvm/src/memory/HostMemory.cpp |  4 ++++
 alsfvm/src/volume/Volume.cpp     | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/alsfvm/src/memory/HostMemory.cpp b/alsfvm/src/memory/HostMemory.cpp
index 0e4584e..1e355e3 100644
--- a/alsfvm/src/memory/HostMemory.cpp
+++ b/alsfvm/src/memory/HostMemory.cpp
@@ -99,6 +99,10 @@ void HostMemory<T>::operator+=(const Memory<T>& other) {
         THROW("Memory not on host");
     }
 
+    if (other.getSize() != this->getSize()) {
+        THROW("Memory size not the same");
+    }
+
     auto pointer = other.getPointer();
     #pragma omp parallel for simd
 
diff --git a/alsfvm/src/volume/Volume.cpp b/alsfvm/src/volume/Volume.cpp
index 9b4135f..0b2e1b2 100644
--- a/alsfvm/src/volume/Volume.cpp
+++ b/alsfvm/src/volume/Volume.cpp
@@ -176,6 +176,8 @@ std::string Volume::getName(size_t index) const {
 /// Adds each component of the other volume to this volume
 ///
 Volume& Volume::operator+=(const Volume& other) {
+    CHECK_SIZE_THIS(other);
+
     for (size_t i = 0; i < memoryAreas.size(); i++) {
         (*(memoryAreas)[i]) += *(other.getScalarMemoryArea(i));
     }
@@ -290,6 +292,8 @@ size_t Volume::getDimensions() const {
 /// Copies the whole volume to the other volume
 ///
 void Volume::copyTo(volume::Volume& other) const {
+    CHECK_SIZE_THIS(other);
+
     if (getNumberOfVariables() == 0) {
         return;
     }
@@ -398,6 +402,8 @@ ivec3 Volume::getTotalDimensions() const {
 }
 
 void Volume::addPower(const Volume& other, real power) {
+    CHECK_SIZE_THIS(other);
+
     for (size_t i = 0; i < memoryAreas.size(); ++i) {
         memoryAreas[i]->addPower(*other[i], power);
     }
@@ -407,6 +413,8 @@ void Volume::addPower(const Volume& other, real power) {
 
 
 void Volume::addPower(const Volume& other, real power, real factor) {
+    CHECK_SIZE_THIS(other);
+
     for (size_t i = 0; i < memoryAreas.size(); ++i) {
         memoryAreas[i]->addPower(*other[i], power, factor);
     }
@@ -414,6 +422,8 @@ void Volume::addPower(const Volume& other, real power, real factor) {
 }
 
 void Volume::subtractPower(const Volume& other, real power) {
+    CHECK_SIZE_THIS(other);
+
     for (size_t i = 0; i < memoryAreas.size(); ++i) {
         memoryAreas[i]->subtractPower(*other[i], power);
     }
-- 
2.43.0


From f8a56b2a7a2cf879347e957de084849289851e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 24/68] fix: structure_base averages over all interior cells

---
 alsfvm/src/functional/StructureBase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alsfvm/src/functional/StructureBase.cpp b/alsfvm/src/functional/StructureBase.cpp
index d66624a..85d182f 100644
--- a/alsfvm/src/functional/StructureBase.cpp
+++ b/alsfvm/src/functional/StructureBase.cpp
@@ -53,9 +53,9 @@ void StructureBase::computeStructure(volume::Volume& output,
         int ngy = input.getNumberOfYGhostCells();
         int ngz = input.getNumberOfZGhostCells();
 
-        int nx = int(input.getNumberOfXCells()) - 2 * ngx;
-        int ny = int(input.getNumberOfYCells()) - 2 * ngy;
-        int nz = int(input.getNumberOfZCells()) - 2 * ngz;
+        int nx = int(input.getNumberOfXCells());
+        int ny = int(input.getNumberOfYCells());
+        int nz = int(input.getNumberOfZCells());
 
         for (int k = 0; k < nz; ++k) {
             for (int j = 0; j < ny; ++j) {
-- 
2.43.0


From ea45b13c3f66294986c090a00f5f37184cc36332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 25/68] fix: structure functionals add their values with the
 given weight

---
 alsfvm/include/alsfvm/functional/StructureBase.hpp | 3 ++-
 alsfvm/src/functional/StructureBase.cpp            | 7 ++++---
 alsfvm/src/functional/StructureCube.cpp            | 9 ++++++---
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/alsfvm/include/alsfvm/functional/StructureBase.hpp b/alsfvm/include/alsfvm/functional/StructureBase.hpp
index 9166324..66bea59 100644
--- a/alsfvm/include/alsfvm/functional/StructureBase.hpp
+++ b/alsfvm/include/alsfvm/functional/StructureBase.hpp
@@ -61,7 +61,8 @@ public:
 private:
 
     void computeStructure(alsfvm::volume::Volume& outputVolume,
-        const alsfvm::volume::Volume& input);
+        const alsfvm::volume::Volume& input,
+        const real weight);
 
     const size_t direction;
     const real p;
diff --git a/alsfvm/src/functional/StructureBase.cpp b/alsfvm/src/functional/StructureBase.cpp
index 85d182f..318d623 100644
--- a/alsfvm/src/functional/StructureBase.cpp
+++ b/alsfvm/src/functional/StructureBase.cpp
@@ -34,7 +34,7 @@ void StructureBase::operator()(volume::Volume& conservedVolumeOut,
     const real weight,
     const grid::Grid& grid) {
     computeStructure(conservedVolumeOut,
-        conservedVolumeIn);
+        conservedVolumeIn, weight);
 
 }
 
@@ -44,7 +44,8 @@ ivec3 StructureBase::getFunctionalSize(const grid::Grid& grid) const {
 }
 
 void StructureBase::computeStructure(volume::Volume& output,
-    const volume::Volume& input) {
+    const volume::Volume& input,
+    const real weight) {
     for (size_t var = 0; var < input.getNumberOfVariables(); ++var) {
         auto inputView = input[var]->getView();
         auto outputView = output[var]->getView();
@@ -76,7 +77,7 @@ void StructureBase::computeStructure(volume::Volume& output,
 
 
 
-                        outputView.at(h, 0, 0) += std::pow(std::abs(u_ijk - u_ijk_h),
+                        outputView.at(h, 0, 0) += weight * std::pow(std::abs(u_ijk - u_ijk_h),
                                 p) / (nx * ny * nz);
                     }
                 }
diff --git a/alsfvm/src/functional/StructureCube.cpp b/alsfvm/src/functional/StructureCube.cpp
index d12ca32..5bf6279 100644
--- a/alsfvm/src/functional/StructureCube.cpp
+++ b/alsfvm/src/functional/StructureCube.cpp
@@ -33,7 +33,8 @@ void StructureCube::operator()(volume::Volume& conservedVolumeOut,
     const real weight,
     const grid::Grid& grid) {
 
-    conservedVolumeOut.makeZero();
+    auto structure = conservedVolumeOut.makeInstance();
+    structure->makeZero();
 
     const auto boundaryConditions = grid.getBoundaryCondition(0);
 
@@ -46,12 +47,12 @@ void StructureCube::operator()(volume::Volume& conservedVolumeOut,
     }
 
     if (boundaryConditions == alsfvm::boundary::PERIODIC) {
-        dispatchComputeStructureCubeCPU<alsfvm::boundary::PERIODIC>(conservedVolumeOut,
+        dispatchComputeStructureCubeCPU<alsfvm::boundary::PERIODIC>(*structure,
             conservedVolumeIn,
             numberOfH, p);
 
     } else if (boundaryConditions == alsfvm::boundary::NEUMANN) {
-        dispatchComputeStructureCubeCPU<alsfvm::boundary::NEUMANN>(conservedVolumeOut,
+        dispatchComputeStructureCubeCPU<alsfvm::boundary::NEUMANN>(*structure,
             conservedVolumeIn,
             numberOfH, p);
 
@@ -61,6 +62,8 @@ void StructureCube::operator()(volume::Volume& conservedVolumeOut,
             << " This is not supported in the current version.");
     }
 
+    conservedVolumeOut.addPower(*structure, 1, weight);
+
 }
 
 ivec3 StructureCube::getFunctionalSize(const grid::Grid& grid) const {
-- 
2.43.0


From 7e0fc15c024abc5de0378a61aa7f86b828b1884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 26/68] fix: the Legendre functionals are refused by the number
 of dimensions, not by the cell lengths

---
 alsfvm/src/functional/Legendre.cpp          | 2 +-
 alsfvm/src/functional/LegendrePointWise.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/functional/Legendre.cpp b/alsfvm/src/functional/Legendre.cpp
index 8eac2d6..a3dc65e 100644
--- a/alsfvm/src/functional/Legendre.cpp
+++ b/alsfvm/src/functional/Legendre.cpp
@@ -50,7 +50,7 @@ void Legendre::operator()(volume::Volume& conservedVolumeOut,
 
     const auto lengths = grid.getCellLengths();
 
-    if (lengths.z > 1 || lengths.y == 1) {
+    if (grid.getActiveDimension() != 2) {
         THROW("For now, Legendre polynomials only support 2d, givne dimensions " <<
             lengths);
     }
diff --git a/alsfvm/src/functional/LegendrePointWise.cpp b/alsfvm/src/functional/LegendrePointWise.cpp
index 9e4a650..0c71758 100644
--- a/alsfvm/src/functional/LegendrePointWise.cpp
+++ b/alsfvm/src/functional/LegendrePointWise.cpp
@@ -48,7 +48,7 @@ void LegendrePointWise::operator()(volume::Volume& conservedVolumeOut,
 
     const auto lengths = grid.getCellLengths();
 
-    if (lengths.z > 1 || lengths.y == 1) {
+    if (grid.getActiveDimension() != 2) {
         THROW("For now, Legendre polynomials only support 2d, givne dimensions " <<
             lengths);
     }
-- 
2.43.0


From 82620e6de69f3c4476591f505ffa55a15f6f1cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 27/68] fix: log_entropy includes all components of the
 momentum on grids of lower dimension

---
 alsfvm/src/functional/LogEntropy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alsfvm/src/functional/LogEntropy.cpp b/alsfvm/src/functional/LogEntropy.cpp
index 3e31eb2..41763d8 100644
--- a/alsfvm/src/functional/LogEntropy.cpp
+++ b/alsfvm/src/functional/LogEntropy.cpp
@@ -28,7 +28,8 @@ void LogEntropy::operator()(volume::Volume& conservedVolumeOut,
     const auto& energyView = conservedVolumeIn.getScalarMemoryArea(
             "E")->getView();
 
-    const size_t numberOfComponents = grid.getActiveDimension();
+    const size_t numberOfComponents = conservedVolumeIn.hasVariable("mz") ? 3 :
+        conservedVolumeIn.hasVariable("my") ? 2 : 1;
 
     std::vector<const real*> momentumPointers;
 
-- 
2.43.0


From 8d91a8ff9ccfea7149a3e74244b31c831ab7f9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 28/68] fix: initial data gets the cell indices of the whole
 domain in parallel runs

---
 alsfvm/src/init/PythonInitialData.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/alsfvm/src/init/PythonInitialData.cpp b/alsfvm/src/init/PythonInitialData.cpp
index b43f607..2be9e46 100644
--- a/alsfvm/src/init/PythonInitialData.cpp
+++ b/alsfvm/src/init/PythonInitialData.cpp
@@ -256,7 +256,12 @@ void PythonInitialData::setInitialData(volume::Volume& conservedVolume,
 
                 boost::python::dict outputMap;
 
-                initialValueFunction(x, y, z, i, j, k, outputMap);
+                // The indices are the ones of the whole domain, also when this
+                // process only has a part of it.
+                initialValueFunction(x, y, z,
+                    i + grid.getGlobalPosition().x,
+                    j + grid.getGlobalPosition().y,
+                    k + grid.getGlobalPosition().z, outputMap);
 
                 // Loop through each variable and set it in the primitive variables:
                 for (size_t var = 0; var <  primitiveVolume.getNumberOfVariables(); ++var) {
-- 
2.43.0


From bed5e4aaf76e4f49b9d5af25d0c5dc2cdb303fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 29/68] fix: parameters with another number of values than
 their length are refused

---
 alsfvm/src/config/SimulatorSetup.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/alsfvm/src/config/SimulatorSetup.cpp b/alsfvm/src/config/SimulatorSetup.cpp
index 80b51bf..149e149 100644
--- a/alsfvm/src/config/SimulatorSetup.cpp
+++ b/alsfvm/src/config/SimulatorSetup.cpp
@@ -471,6 +471,11 @@ init::Parameters SimulatorSetup::readParameters(const SimulatorSetup::ptree&
                     // We only got a single value
                     value.resize(length, value[0]);
                 }
+
+                if (value.size() != size_t(length)) {
+                    THROW("Parameter " << name << " has length " << length
+                        << ", but " << value.size() << " values were given.");
+                }
             }
 
             parameters.addParameter(name, value);
-- 
2.43.0


From 53f672575e21eef1f4accbf8077dcc46ce7c4c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 30/68] fix: parameters of initial data are not hidden by names
 of the imported modules

---
 alsfvm/src/init/PythonInitialData.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/alsfvm/src/init/PythonInitialData.cpp b/alsfvm/src/init/PythonInitialData.cpp
index 2be9e46..0388c0d 100644
--- a/alsfvm/src/init/PythonInitialData.cpp
+++ b/alsfvm/src/init/PythonInitialData.cpp
@@ -108,9 +108,10 @@ void PythonInitialData::setInitialData(volume::Volume& conservedVolume,
             snippet = false;
         }
 
-        functionStringStream << "from math import *" << std::endl;
-        functionStringStream << "try:\n    from numpy import *\nexcept:\n    pass" <<
-            std::endl;
+        // The imports have to come before the parameters are set, otherwise they hide
+        // parameters with the name of something in those modules (eg. gamma).
+        boost::python::exec("from math import *\n"
+            "try:\n    from numpy import *\nexcept:\n    pass\n", mainNamespace);
 
         if (snippet) {
             functionStringStream << "def initial_data(x, y, z, i, j, k, output):\n";
-- 
2.43.0


From 16274630abf494d4680f967705d85e101ea1662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 31/68] fix: simulations set up without MPI have no wave speed
 adjuster

---
 alsfvm/src/simulator/Simulator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/simulator/Simulator.cpp b/alsfvm/src/simulator/Simulator.cpp
index 690fbdf..bdc3eaa 100644
--- a/alsfvm/src/simulator/Simulator.cpp
+++ b/alsfvm/src/simulator/Simulator.cpp
@@ -224,8 +224,11 @@ std::string Simulator::getName() const {
 void Simulator::setCellExchanger(mpi::CellExchangerPtr value) {
     cellExchanger = value;
     system->setCellExchanger(value);
-    integrator->addWaveSpeedAdjuster(
-        alsfvm::dynamic_pointer_cast<integrator::WaveSpeedAdjuster>(cellExchanger));
+
+    if (cellExchanger) {
+        integrator->addWaveSpeedAdjuster(
+            alsfvm::dynamic_pointer_cast<integrator::WaveSpeedAdjuster>(cellExchanger));
+    }
 }
 #endif
 }
-- 
2.43.0


From aad9453f9a4e38428abe206e5c75135021aac067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 32/68] fix: corners and dimensions with other than three
 numbers are refused

---
 alsfvm/src/config/SimulatorSetup.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/alsfvm/src/config/SimulatorSetup.cpp b/alsfvm/src/config/SimulatorSetup.cpp
index 149e149..db732be 100644
--- a/alsfvm/src/config/SimulatorSetup.cpp
+++ b/alsfvm/src/config/SimulatorSetup.cpp
@@ -72,7 +72,13 @@ namespace {
 template<class T>
 vec3<T> parseVector(const std::string& vectorAsString) {
     std::vector<std::string> splitString;
-    boost::split(splitString, vectorAsString, boost::is_any_of("\t "));
+    const std::string trimmed = boost::trim_copy(vectorAsString);
+    boost::split(splitString, trimmed, boost::is_any_of("\t "),
+        boost::token_compress_on);
+
+    if (splitString.size() != 3) {
+        THROW("Expected three numbers, but got \"" << vectorAsString << "\"");
+    }
 
     T a = boost::lexical_cast<T>(splitString[0]);
     T b = boost::lexical_cast<T>(splitString[1]);
-- 
2.43.0


From f8f18b9a9047857e03e536a3b54238227c193e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:06 +0000
Subject: [PATCH 33/68] fix: comments in configuration files are not settings

---
 alsfvm/src/config/XMLParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alsfvm/src/config/XMLParser.cpp b/alsfvm/src/config/XMLParser.cpp
index 63dca20..f3dafb7 100644
--- a/alsfvm/src/config/XMLParser.cpp
+++ b/alsfvm/src/config/XMLParser.cpp
@@ -20,7 +20,8 @@ namespace alsfvm {
 namespace config {
 
 void XMLParser::parseFile(std::istream& stream, ptree& configuration) {
-    boost::property_tree::read_xml(stream, configuration);
+    boost::property_tree::read_xml(stream, configuration,
+        boost::property_tree::xml_parser::no_comments);
 }
 
 }
-- 
2.43.0


From f6868724a76b63bce3111752f5fad6e0d3c69d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 34/68] fix: CFL numbers that are not positive are refused

---
 alsfvm/src/config/SimulatorSetup.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/alsfvm/src/config/SimulatorSetup.cpp b/alsfvm/src/config/SimulatorSetup.cpp
index db732be..e9cee77 100644
--- a/alsfvm/src/config/SimulatorSetup.cpp
+++ b/alsfvm/src/config/SimulatorSetup.cpp
@@ -320,7 +320,13 @@ real SimulatorSetup::readCFLNumber(const SimulatorSetup::ptree& configuration) {
             return 0.475;
         }
     } else {
-        return boost::lexical_cast<real>(cflString);
+        const real cfl = boost::lexical_cast<real>(cflString);
+
+        if (!(cfl > 0)) {
+            THROW("The CFL number has to be positive, got " << cflString);
+        }
+
+        return cfl;
     }
 }
 
-- 
2.43.0


From e97a68421f24a4907aa43ff059cca5dd17f4027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 35/68] fix: grids without cells or with exchanged corners are
 refused

---
 alsfvm/src/config/SimulatorSetup.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/alsfvm/src/config/SimulatorSetup.cpp b/alsfvm/src/config/SimulatorSetup.cpp
index e9cee77..55dc853 100644
--- a/alsfvm/src/config/SimulatorSetup.cpp
+++ b/alsfvm/src/config/SimulatorSetup.cpp
@@ -276,6 +276,18 @@ alsfvm::shared_ptr<grid::Grid> SimulatorSetup::createGrid(
     auto upperCorner = parseVector<real>(upperCornerString);
     auto dimension = parseVector<int>(dimensionString);
 
+    for (int direction = 0; direction < 3; ++direction) {
+        if (dimension[direction] < 1) {
+            THROW("The number of cells has to be positive, got " << dimensionString);
+        }
+
+        if ((direction == 0 || dimension[direction] > 1)
+            && !(lowerCorner[direction] < upperCorner[direction])) {
+            THROW("The upper corner has to be above the lower corner, got "
+                << lowerCornerString << " and " << upperCornerString);
+        }
+    }
+
     auto boundaryName = readBoundary(configuration);
 
     std::array<boundary::Type, 6> boundaryConditions;
-- 
2.43.0


From 369ac8011235f26a54c3d9a7e851d69c5de0c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 36/68] fix: time averages of snapshots weigh the first and the
 last one correctly

---
 alsfvm/src/io/TimeIntegratedWriter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/io/TimeIntegratedWriter.cpp b/alsfvm/src/io/TimeIntegratedWriter.cpp
index fab5644..659fd44 100644
--- a/alsfvm/src/io/TimeIntegratedWriter.cpp
+++ b/alsfvm/src/io/TimeIntegratedWriter.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "alsfvm/io/TimeIntegratedWriter.hpp"
+#include <algorithm>
 
 namespace alsfvm {
 namespace io {
@@ -31,7 +32,8 @@ void TimeIntegratedWriter::write(const volume::Volume& conservedVariables,
 
     const real currentTime = timestepInformation.getCurrentTime();
 
-    if (std::abs(currentTime - time) < timeRadius) {
+    // The end of the window is included, so that the snapshot taken there counts
+    if (currentTime > time - timeRadius && currentTime <= time + timeRadius) {
 
         if (!integratedConservedVariables) {
             integratedConservedVariables = conservedVariables.makeInstance();
@@ -39,7 +41,8 @@ void TimeIntegratedWriter::write(const volume::Volume& conservedVariables,
 
         }
 
-        const real dt = currentTime - lastTime;
+        // When only given snapshots, the last time can be long before the window
+        const real dt = currentTime - std::max(lastTime, time - timeRadius);
 
 
 
-- 
2.43.0


From 176be4a0f15e9aba319d675fecec0993beb7994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 37/68] fix: time averages over windows without any timestep
 end with an error

---
 alsfvm/src/io/TimeIntegratedWriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/alsfvm/src/io/TimeIntegratedWriter.cpp b/alsfvm/src/io/TimeIntegratedWriter.cpp
index 659fd44..be81e87 100644
--- a/alsfvm/src/io/TimeIntegratedWriter.cpp
+++ b/alsfvm/src/io/TimeIntegratedWriter.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "alsfvm/io/TimeIntegratedWriter.hpp"
+#include "alsutils/error/Exception.hpp"
 #include <algorithm>
 
 namespace alsfvm {
@@ -57,6 +58,10 @@ void TimeIntegratedWriter::write(const volume::Volume& conservedVariables,
     }
 
     if (!written && currentTime >= time + timeRadius) {
+        if (!integratedConservedVariables) {
+            THROW("No timestep within " << timeRadius << " of time " << time
+                << ", cannot write the time average.");
+        }
 
         simulator::TimestepInformation newTime(time, 0);
         *integratedConservedVariables *= 0.5 / timeRadius;
-- 
2.43.0


From b68711e2515f93debd256da2f5947834b9cd702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 38/68] fix: time integrals of functionals of snapshots weigh
 the first one correctly

---
 alsfvm/src/functional/TimeIntegrationFunctional.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alsfvm/src/functional/TimeIntegrationFunctional.cpp b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
index de7ebad..2df0cf9 100644
--- a/alsfvm/src/functional/TimeIntegrationFunctional.cpp
+++ b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "alsfvm/functional/TimeIntegrationFunctional.hpp"
+#include <algorithm>
 #include <iostream>
 
 namespace alsfvm {
@@ -38,9 +39,10 @@ void TimeIntegrationFunctional::write(const volume::Volume& conservedVariables,
     }
 
     const double currentTime = timestepInformation.getCurrentTime();
-    const double dt = currentTime - lastTime;
+    // When only given snapshots, the last time can be long before the window
+    const double dt = currentTime - std::max(lastTime, time - timeRadius);
 
-    if (std::abs(currentTime - time) <= timeRadius) {
+    if (currentTime > time - timeRadius && currentTime <= time + timeRadius) {
         (*functional)(*conservedVolume,  conservedVariables,
             dt, grid);
     }
-- 
2.43.0


From f843181d15e5ece926b9320f4ca86324661bc10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 39/68] fix: time integrals of functionals that saw no timestep
 end with an error

---
 alsfvm/src/functional/TimeIntegrationFunctional.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/alsfvm/src/functional/TimeIntegrationFunctional.cpp b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
index 2df0cf9..44bd1cb 100644
--- a/alsfvm/src/functional/TimeIntegrationFunctional.cpp
+++ b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "alsfvm/functional/TimeIntegrationFunctional.hpp"
+#include "alsutils/error/Exception.hpp"
 #include <algorithm>
 #include <iostream>
 
@@ -52,6 +53,11 @@ void TimeIntegrationFunctional::write(const volume::Volume& conservedVariables,
 
 void TimeIntegrationFunctional::finalize(const grid::Grid& grid,
     const simulator::TimestepInformation& timestepInformation) {
+    if (!conservedVolume) {
+        THROW("No timestep within " << timeRadius << " of time " << time
+            << ", cannot write the time integral.");
+    }
+
     const ivec3 numberOfNodes = grid.getGlobalSize() / grid.getDimensions();
     grid::Grid smallerGrid(grid.getOrigin(),
         grid.getTop(),
-- 
2.43.0


From 451a50a98dc1a6e78636909da06b4786c5f4c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 40/68] fix: writers with a time and a radius write the time
 average

---
 alsfvm/src/config/SimulatorSetup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/alsfvm/src/config/SimulatorSetup.cpp b/alsfvm/src/config/SimulatorSetup.cpp
index 55dc853..1b19575 100644
--- a/alsfvm/src/config/SimulatorSetup.cpp
+++ b/alsfvm/src/config/SimulatorSetup.cpp
@@ -434,6 +434,8 @@ alsfvm::shared_ptr<io::Writer> SimulatorSetup::createWriter(
                             timeInterval, time + timeRadius, false,
                             std::max(time - timeRadius, real(0.0))));
             }
+
+            return timeIntegratedWriter;
         }
 
         return baseWriter;
-- 
2.43.0


From c46d3d51ea83ee2ece7c3fdc57bbf27f93c5da24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 41/68] fix: rounding does not drop the last step of time
 averages

---
 alsfvm/src/functional/TimeIntegrationFunctional.cpp |  4 +++-
 alsfvm/src/io/TimeIntegratedWriter.cpp              | 10 +++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/alsfvm/src/functional/TimeIntegrationFunctional.cpp b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
index 44bd1cb..afb1655 100644
--- a/alsfvm/src/functional/TimeIntegrationFunctional.cpp
+++ b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
@@ -43,7 +43,9 @@ void TimeIntegrationFunctional::write(const volume::Volume& conservedVariables,
     // When only given snapshots, the last time can be long before the window
     const double dt = currentTime - std::max(lastTime, time - timeRadius);
 
-    if (currentTime > time - timeRadius && currentTime <= time + timeRadius) {
+    // Rounding must not put the end of the window before (or after) the last step
+    if (currentTime > time - timeRadius
+        && currentTime <= time + timeRadius * (1 + 1e-8)) {
         (*functional)(*conservedVolume,  conservedVariables,
             dt, grid);
     }
diff --git a/alsfvm/src/io/TimeIntegratedWriter.cpp b/alsfvm/src/io/TimeIntegratedWriter.cpp
index be81e87..5dde9ac 100644
--- a/alsfvm/src/io/TimeIntegratedWriter.cpp
+++ b/alsfvm/src/io/TimeIntegratedWriter.cpp
@@ -33,8 +33,12 @@ void TimeIntegratedWriter::write(const volume::Volume& conservedVariables,
 
     const real currentTime = timestepInformation.getCurrentTime();
 
-    // The end of the window is included, so that the snapshot taken there counts
-    if (currentTime > time - timeRadius && currentTime <= time + timeRadius) {
+    // The end of the window is included, so that the snapshot taken there counts.
+    // Rounding must not put it before (or after) the end.
+    const real windowEnd = time + timeRadius;
+    const real tolerance = 1e-8 * timeRadius;
+
+    if (currentTime > time - timeRadius && currentTime <= windowEnd + tolerance) {
 
         if (!integratedConservedVariables) {
             integratedConservedVariables = conservedVariables.makeInstance();
@@ -57,7 +61,7 @@ void TimeIntegratedWriter::write(const volume::Volume& conservedVariables,
 
     }
 
-    if (!written && currentTime >= time + timeRadius) {
+    if (!written && currentTime >= windowEnd - tolerance) {
         if (!integratedConservedVariables) {
             THROW("No timestep within " << timeRadius << " of time " << time
                 << ", cannot write the time average.");
-- 
2.43.0


From 710c3928d3ece98048a5ff14bc6b04ad022bac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 42/68] fix: comments in configuration files of UQ runs are not
 settings

---
 alsuq/src/config/Setup.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/alsuq/src/config/Setup.cpp b/alsuq/src/config/Setup.cpp
index 5eec072..c5b8da9 100644
--- a/alsuq/src/config/Setup.cpp
+++ b/alsuq/src/config/Setup.cpp
@@ -59,7 +59,8 @@ std::shared_ptr<run::Runner> Setup::makeRunner(const std::string& inputFilename,
     std::stringstream stream(configurationFileContent);
 
     ptree configurationBase;
-    boost::property_tree::read_xml(stream, configurationBase);
+    boost::property_tree::read_xml(stream, configurationBase,
+        boost::property_tree::xml_parser::no_comments);
     auto configuration = configurationBase.get_child("config");
     auto sampleGenerator = makeSampleGenerator(configuration);
     auto numberOfSamples = readNumberOfSamples(configuration);
@@ -113,7 +114,8 @@ std::shared_ptr<samples::SampleGenerator> Setup::makeSampleGenerator(
     auto configurationFileContent = textCache.loadTextFile(inputFilename);
     std::stringstream stream(configurationFileContent);
     ptree configurationBase;
-    boost::property_tree::read_xml(stream, configurationBase);
+    boost::property_tree::read_xml(stream, configurationBase,
+        boost::property_tree::xml_parser::no_comments);
     auto configuration = configurationBase.get_child("config");
     auto sampleGenerator = makeSampleGenerator(configuration);
 
@@ -126,7 +128,8 @@ size_t Setup::readNumberOfSamples(const std::string& inputFilename) {
     auto configurationFileContent = textCache.loadTextFile(inputFilename);
     std::stringstream stream(configurationFileContent);
     ptree configurationBase;
-    boost::property_tree::read_xml(stream, configurationBase);
+    boost::property_tree::read_xml(stream, configurationBase,
+        boost::property_tree::xml_parser::no_comments);
     auto configuration = configurationBase.get_child("config");
 
     return readNumberOfSamples(configuration);
@@ -137,7 +140,8 @@ size_t Setup::readSampleStart(const std::string& inputFilename) {
     auto configurationFileContent = textCache.loadTextFile(inputFilename);
     std::stringstream stream(configurationFileContent);
     ptree configurationBase;
-    boost::property_tree::read_xml(stream, configurationBase);
+    boost::property_tree::read_xml(stream, configurationBase,
+        boost::property_tree::xml_parser::no_comments);
     auto configuration = configurationBase.get_child("config");
 
     return readSampleStart(configuration);
-- 
2.43.0


From ce0c4fdf5afce733a64ea8f95733d645830b2d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 43/68] fix: statistics of all samples are gathered at the same
 save times

---
 alsuq/src/stats/FixedIntervalStatistics.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alsuq/src/stats/FixedIntervalStatistics.cpp b/alsuq/src/stats/FixedIntervalStatistics.cpp
index b99bd96..497c200 100644
--- a/alsuq/src/stats/FixedIntervalStatistics.cpp
+++ b/alsuq/src/stats/FixedIntervalStatistics.cpp
@@ -79,8 +79,11 @@ void FixedIntervalStatistics::computeStatistics(const alsfvm::volume::Volume&
             << "\n\tnumberSaves = " << numberSaved
             << "\n\ttimeInterval = " << timeInterval
             << "\n\tendTime = " << endTime);
+        // Rounding makes the current time differ between samples, the snapshots
+        // of all samples belong to the same save time.
         statistics->computeStatistics(conservedVariables, grid,
-            timestepInformation);
+            alsfvm::simulator::TimestepInformation(getNextSaveTime(),
+                timestepInformation.getNumberOfStepsPerformed()));
         numberSaved++;
     }
 }
-- 
2.43.0


From f580ba15493b2151f7db3eeec401686d1282a82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 44/68] fix: bv_direction averages over all samples

---
 alsuq/src/stats/BoundedVariationDirection.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alsuq/src/stats/BoundedVariationDirection.cpp b/alsuq/src/stats/BoundedVariationDirection.cpp
index 33b1456..41b0d91 100644
--- a/alsuq/src/stats/BoundedVariationDirection.cpp
+++ b/alsuq/src/stats/BoundedVariationDirection.cpp
@@ -58,18 +58,18 @@ void BoundedVariationDirection::computeStatistics(const alsfvm::volume::Volume&
 
     for (size_t var = 0; var < conservedVariables.getNumberOfVariables(); ++var) {
         bvX.getVolumes().getConservedVolume()->getScalarMemoryArea(var)->getPointer()[0]
-            = conservedVariables.getScalarMemoryArea(var)->getTotalVariation(0, p, start,
+            += conservedVariables.getScalarMemoryArea(var)->getTotalVariation(0, p, start,
                     end);
 
         if (conservedVariables.getDimensions() > 1) {
             bvY.getVolumes().getConservedVolume()->getScalarMemoryArea(
-                var)->getPointer()[0] = conservedVariables.getScalarMemoryArea(
+                var)->getPointer()[0] += conservedVariables.getScalarMemoryArea(
                         var)->getTotalVariation(1, p, start, end);
         }
 
         if (conservedVariables.getDimensions() > 2) {
             bvZ.getVolumes().getConservedVolume()->getScalarMemoryArea(
-                var)->getPointer()[0] = conservedVariables.getScalarMemoryArea(
+                var)->getPointer()[0] += conservedVariables.getScalarMemoryArea(
                         var)->getTotalVariation(2, p, start, end);
         }
 
-- 
2.43.0


From 6f4fddbd134257cdc875cc61de331fc13d427ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 45/68] fix: structure_2pt averages over all interior cells

---
 alsuq/src/stats/StructureTwoPoints.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alsuq/src/stats/StructureTwoPoints.cpp b/alsuq/src/stats/StructureTwoPoints.cpp
index 2176920..ea22539 100644
--- a/alsuq/src/stats/StructureTwoPoints.cpp
+++ b/alsuq/src/stats/StructureTwoPoints.cpp
@@ -65,9 +65,9 @@ void StructureTwoPoints::computeStructure(alsfvm::volume::Volume& output,
         int ngy = input.getNumberOfYGhostCells();
         int ngz = input.getNumberOfZGhostCells();
 
-        int nx = int(input.getNumberOfXCells()) - 2 * ngx;
-        int ny = int(input.getNumberOfYCells()) - 2 * ngy;
-        int nz = int(input.getNumberOfZCells()) - 2 * ngz;
+        int nx = int(input.getNumberOfXCells());
+        int ny = int(input.getNumberOfYCells());
+        int nz = int(input.getNumberOfZCells());
 
         for (int k = 0; k < nz; ++k) {
             for (int j = 0; j < ny; ++j) {
-- 
2.43.0


From d8646dbc38ed8fa61c761fe940f4f80339c5b539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 46/68] fix: structure_2pt uses the second direction

---
 alsuq/src/stats/StructureTwoPoints.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alsuq/src/stats/StructureTwoPoints.cpp b/alsuq/src/stats/StructureTwoPoints.cpp
index ea22539..bfbca1c 100644
--- a/alsuq/src/stats/StructureTwoPoints.cpp
+++ b/alsuq/src/stats/StructureTwoPoints.cpp
@@ -82,10 +82,10 @@ void StructureTwoPoints::computeStructure(alsfvm::volume::Volume& output,
                                 std::min(k + h1 * directionVector1.z, nz - 1) + ngz);
 
                         for (int h2 = 0; h2 < int(numberOfH); ++h2) {
-                            auto u_ijk_h2 = inputView.at(std::min(i + h2 * directionVector1.x,
+                            auto u_ijk_h2 = inputView.at(std::min(i + h2 * directionVector2.x,
                                         nx - 1) % nx + ngx,
-                                    std::min(j + h2 * directionVector1.y, ny - 1) % ny + ngy,
-                                    std::min(k + h2 * directionVector1.z, nz - 1) % nz + ngz);
+                                    std::min(j + h2 * directionVector2.y, ny - 1) % ny + ngy,
+                                    std::min(k + h2 * directionVector2.z, nz - 1) % nz + ngz);
 
 
                             outputView.at(h1, h2, 0) += (u_ijk_h1 - u_ijk) * (u_ijk_h1 - u_ijk) *
-- 
2.43.0


From 2c80a52c9b79364a2916e2c8541e178f9db95a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 47/68] fix: structure_basic looks at the boundary condition of
 its own direction

---
 alsuq/src/stats/StructureBasic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alsuq/src/stats/StructureBasic.cpp b/alsuq/src/stats/StructureBasic.cpp
index 4ac4a46..907ac75 100644
--- a/alsuq/src/stats/StructureBasic.cpp
+++ b/alsuq/src/stats/StructureBasic.cpp
@@ -45,11 +45,11 @@ void StructureBasic::computeStatistics(const alsfvm::volume::Volume&
             conservedVariables,
             numberOfH, 1, 1);
 
-    if (grid.getBoundaryCondition(direction) == alsfvm::boundary::PERIODIC) {
+    if (grid.getBoundaryCondition(2 * direction) == alsfvm::boundary::PERIODIC) {
         computeStructure<alsfvm::boundary::PERIODIC>
         (*structure.getVolumes().getConservedVolume(),
             conservedVariables);
-    } else if (grid.getBoundaryCondition(direction) == alsfvm::boundary::NEUMANN) {
+    } else if (grid.getBoundaryCondition(2 * direction) == alsfvm::boundary::NEUMANN) {
         computeStructure<alsfvm::boundary::NEUMANN>
         (*structure.getVolumes().getConservedVolume(),
             conservedVariables);
-- 
2.43.0


From 602e3c542eb15a8be10f8d0835caffaa5c0920ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 48/68] fix: structure_2pt is refused with several processes
 along its directions

---
 alsuq/src/stats/StructureTwoPoints.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/alsuq/src/stats/StructureTwoPoints.cpp b/alsuq/src/stats/StructureTwoPoints.cpp
index bfbca1c..672179d 100644
--- a/alsuq/src/stats/StructureTwoPoints.cpp
+++ b/alsuq/src/stats/StructureTwoPoints.cpp
@@ -40,6 +40,12 @@ void StructureTwoPoints::computeStatistics(const alsfvm::volume::Volume&
     conservedVariables,
     const alsfvm::grid::Grid& grid,
     const alsfvm::simulator::TimestepInformation& timestepInformation) {
+    if (grid.getBoundaryCondition(2 * direction1) == alsfvm::boundary::MPI_BC
+        || grid.getBoundaryCondition(2 * direction2) == alsfvm::boundary::MPI_BC) {
+        THROW("structure_2pt is not supported with several processes along its directions "
+            << "(multi_x, multi_y or multi_z > 1).");
+    }
+
     auto& structure = this->findOrCreateSnapshot(statisticsName,
             timestepInformation,
             conservedVariables,
-- 
2.43.0


From ff90bb7041c6d450b36008798b9664f9ccf0c380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 49/68] fix: statistics of divided samples are written at the
 position of the process

---
 alsuq/src/stats/StatisticsHelper.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/alsuq/src/stats/StatisticsHelper.cpp b/alsuq/src/stats/StatisticsHelper.cpp
index 3a664a8..5b07e0f 100644
--- a/alsuq/src/stats/StatisticsHelper.cpp
+++ b/alsuq/src/stats/StatisticsHelper.cpp
@@ -88,8 +88,16 @@ void StatisticsHelper::writeStatistics(const alsfvm::grid::Grid& grid) {
                 auto& timestepInformation = statistics.second.getTimestepInformation();
 
                 if (ownGrid) {
+                    // Every process of a spatially divided sample has its own values
+                    const auto dimensions = ownGrid->getDimensions();
+                    const alsfvm::grid::Grid positionedGrid(ownGrid->getOrigin(),
+                        ownGrid->getTop(),
+                        dimensions,
+                        ownGrid->getBoundaryConditions(),
+                        (grid.getGlobalPosition() / grid.getDimensions()) * dimensions,
+                        (grid.getGlobalSize() / grid.getDimensions()) * dimensions);
                     writer->write(*volumes.getConservedVolume(),
-                        *ownGrid, timestepInformation);
+                        positionedGrid, timestepInformation);
                 } else {
                     writer->write(*volumes.getConservedVolume(),
                         grid, timestepInformation);
-- 
2.43.0


From 9f42a55efbe57c4b50c8376bed9aa78f149554eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 50/68] fix: random samples only depend on the sample and the
 parameter

---
 .../alsuq/generator/GeneratorFactory.hpp      |  7 +-
 alsuq/include/alsuq/generator/STLMersenne.hpp | 19 ++++--
 alsuq/src/config/Setup.cpp                    | 18 ++++-
 alsuq/src/generator/GeneratorFactory.cpp      |  6 +-
 alsuq/src/generator/STLMersenne.cpp           | 65 +++++--------------
 5 files changed, 56 insertions(+), 59 deletions(-)

diff --git a/alsuq/include/alsuq/generator/GeneratorFactory.hpp b/alsuq/include/alsuq/generator/GeneratorFactory.hpp
index 65bca59..4beb236 100644
--- a/alsuq/include/alsuq/generator/GeneratorFactory.hpp
+++ b/alsuq/include/alsuq/generator/GeneratorFactory.hpp
@@ -27,11 +27,16 @@ public:
     //! \param name the name of the generator
     //! \param dimensions the number of dimensions to use
     //! \param numberVariables number of random variables to draw (relevant for QMC)
+    //! \param offset the total number of dimensions of the generators before this one
+    //! \param stride the total number of dimensions of all generators, 0 if this is the
+    //!               only one
     //! \return the new generator
     //!
     std::shared_ptr<Generator> makeGenerator(const std::string& name,
         const size_t dimensions,
-        const size_t numberVariables
+        const size_t numberVariables,
+        const size_t offset = 0,
+        const size_t stride = 0
     );
 
 
diff --git a/alsuq/include/alsuq/generator/STLMersenne.hpp b/alsuq/include/alsuq/generator/STLMersenne.hpp
index 821213b..15ca1f1 100644
--- a/alsuq/include/alsuq/generator/STLMersenne.hpp
+++ b/alsuq/include/alsuq/generator/STLMersenne.hpp
@@ -22,21 +22,30 @@ namespace generator {
 
 //! Uses the C++ STL implementation to generate random numbers
 //!
-//! @todo This needs to be fixed for multiple users (ie. when multiple
-//! instances uses this, it will not work properly with the sample fast forwarding)
+//! All instances draw from the same stream of numbers: the numbers of one sample are
+//! stride consecutive ones, of which this instance uses those from offset on.
 class STLMersenne : public Generator {
 public:
-    STLMersenne(size_t dimension);
+    //! \param dimension the number of components of this generator
+    //! \param offset the total number of components of the generators before this one
+    //! \param stride the total number of components of all generators
+    STLMersenne(size_t dimension, size_t offset, size_t stride);
 
     //! Generates the next random number
     real generate(size_t component, size_t sample) override;
 private:
 
 
-    std::pair<std::mt19937_64, long>& generator;
+    std::mt19937_64 generator;
+
+    //! How many numbers have been drawn from generator
+    unsigned long long generated = 0;
+
     std::uniform_real_distribution<real> distribution{0.0, 1.0};
 
-    const long dimension;
+    const size_t dimension;
+    const size_t offset;
+    const size_t stride;
 };
 } // namespace generator
 } // namespace alsuq
diff --git a/alsuq/src/config/Setup.cpp b/alsuq/src/config/Setup.cpp
index c5b8da9..72ab344 100644
--- a/alsuq/src/config/Setup.cpp
+++ b/alsuq/src/config/Setup.cpp
@@ -163,6 +163,22 @@ std::shared_ptr<samples::SampleGenerator> Setup::makeSampleGenerator(
     generator::GeneratorFactory generatorFactory;
     distribution::DistributionFactory distributionFactory;
 
+    // The parameters (in the order in which they are generated) share the random numbers
+    // of a sample
+    std::map<std::string, size_t> offsets;
+    size_t totalLength = 0;
+
+    for (auto parameterNode : parametersNode) {
+        offsets[parameterNode.second.get<std::string>("name")] =
+            parameterNode.second.get<size_t>("length");
+    }
+
+    for (auto& offset : offsets) {
+        const size_t length = offset.second;
+        offset.second = totalLength;
+        totalLength += length;
+    }
+
     for (auto parameterNode : parametersNode) {
         auto name = parameterNode.second.get<std::string>("name");
         auto length = parameterNode.second.get<size_t>("length");
@@ -186,7 +202,7 @@ std::shared_ptr<samples::SampleGenerator> Setup::makeSampleGenerator(
 
 
         auto generator = generatorFactory.makeGenerator(generatorName, length,
-                numberOfSamples);
+                numberOfSamples, offsets[name], totalLength);
         generators[name] = std::make_pair(length, std::make_pair(generator,
                     distribution));
     }
diff --git a/alsuq/src/generator/GeneratorFactory.cpp b/alsuq/src/generator/GeneratorFactory.cpp
index 3996f47..88679d0 100644
--- a/alsuq/src/generator/GeneratorFactory.cpp
+++ b/alsuq/src/generator/GeneratorFactory.cpp
@@ -23,12 +23,14 @@ namespace generator {
 std::shared_ptr<Generator> GeneratorFactory::makeGenerator(
     const std::string& name,
     const size_t dimensions,
-    const size_t numberVariables
+    const size_t numberVariables,
+    const size_t offset,
+    const size_t stride
 ) {
 
     if (name == "stlmersenne") {
         return std::dynamic_pointer_cast<Generator>(std::make_shared<STLMersenne>
-                (dimensions));
+                (dimensions, offset, stride > 0 ? stride : dimensions));
     } else {
         THROW("Unknown generator " << name);
     }
diff --git a/alsuq/src/generator/STLMersenne.cpp b/alsuq/src/generator/STLMersenne.cpp
index 0480aa8..26002a8 100644
--- a/alsuq/src/generator/STLMersenne.cpp
+++ b/alsuq/src/generator/STLMersenne.cpp
@@ -19,69 +19,34 @@
 
 namespace alsuq {
 namespace generator {
-namespace {
-// We need to make sure we have a single generator
-// so that we generate independent samples
-std::pair<std::mt19937_64, long>& getGeneratorInstance() {
-    static std::pair<std::mt19937_64, long> generator;
-
-    return generator;
-}
-}
-
-
-STLMersenne::STLMersenne(size_t dimension)
-    : generator(getGeneratorInstance()), dimension(dimension) {
-
+STLMersenne::STLMersenne(size_t dimension, size_t offset, size_t stride)
+    : dimension(dimension), offset(offset), stride(stride) {
 }
 
 real STLMersenne::generate(size_t component, size_t sample) {
-
     if (long(component) >= long(dimension)) {
         THROW("Component given higher than dimension. component = "
             << component << ", dimension = " << dimension);
     }
 
+    // The number only depends on the sample and the component, not on what has been
+    // generated before (in this process).
+    const unsigned long long position = (unsigned long long)(sample) * stride
+        + offset + component;
 
-    if (generator.second / long(dimension) < long(sample)) {
-
-
-      const auto samplesToBeAdded = (long(sample)) * dimension -
-            generator.second;
-
-        ALSVINN_LOG(INFO, "(not matching sample) Discarding " << samplesToBeAdded <<
-            " samples"
-            << ", generatedSamples = " << generator.second);
-        generator.first.discard(samplesToBeAdded);
-        ALSVINN_LOG(INFO, "Done discarding " << samplesToBeAdded
-            << " samples:(\n\tsample = " << sample
-            << "\n\tcomponent = " << component
-            << "\n\tdimension = " << dimension
-            << "\n\tgenerator.second / long(dimension) = " << generator.second /
-            long(dimension) << "\n)");
-        generator.second += samplesToBeAdded;
+    if (position < generated) {
+        generator.seed();
+        generated = 0;
     }
 
-    if (generator.second % long(dimension) < long(component)) {
-        const auto samplesToBeAdded = long(component) - long(generator.second %
-                dimension);
-        ALSVINN_LOG(INFO, "(not matching component) Discarding " << samplesToBeAdded <<
-            " samples"
-            << ", generatedSamples = " << generator.second);
-        generator.first.discard(samplesToBeAdded);
-        ALSVINN_LOG(INFO, "Done discarding " << samplesToBeAdded
-            << " samples (\n\tsample = " << sample
-            << "\n\tcomponent = " << component
-            << "\n\tdimension = " << dimension
-            << "\n\tgenerator.second % long(dimension) = " << (generator.second %
-                long(dimension)) << "\n)");
-
-        generator.second += samplesToBeAdded;
+    if (position > generated) {
+        ALSVINN_LOG(INFO, "Discarding " << position - generated <<
+            " samples, generatedSamples = " << generated);
+        generator.discard(position - generated);
     }
 
-    generator.second++;
-
-    return distribution(generator.first);
+    generated = position + 1;
+    return distribution(generator);
 }
 
 }
-- 
2.43.0


From b06c085b699d2b7bb41b8cdc9f0f6837155c5287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 51/68] fix: statistics without numberOfSaves and time are
 refused

---
 alsuq/src/config/Setup.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/alsuq/src/config/Setup.cpp b/alsuq/src/config/Setup.cpp
index 72ab344..0a3f8c2 100644
--- a/alsuq/src/config/Setup.cpp
+++ b/alsuq/src/config/Setup.cpp
@@ -309,6 +309,9 @@ std::vector<std::shared_ptr<stats::Statistics> > Setup::createStatistics(
                     new stats::TimeIntegratedWriter(statistics, time,
                         radius));
             statisticsVector.push_back(timeIntegrator);
+        } else {
+            THROW("The statistics " << name
+                << " needs either numberOfSaves or time and timeRadius.");
         }
 
 
-- 
2.43.0


From 93da8a7743e1c2b791cdbeed63f27563d4610ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 52/68] fix: configured intervals of random parameters are used

---
 alsuq/src/config/Setup.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/alsuq/src/config/Setup.cpp b/alsuq/src/config/Setup.cpp
index 0a3f8c2..ff0d731 100644
--- a/alsuq/src/config/Setup.cpp
+++ b/alsuq/src/config/Setup.cpp
@@ -185,15 +185,17 @@ std::shared_ptr<samples::SampleGenerator> Setup::makeSampleGenerator(
         auto type = parameterNode.second.get<std::string>("type");
 
         distribution::Parameters parametersToDistribution(parameterNode.second);
-        parametersToDistribution.addDoubleParameter("lower", 0);
-        parametersToDistribution.addDoubleParameter("upper", 1);
-
-        parametersToDistribution.addDoubleParameter("a", 0);
-        parametersToDistribution.addDoubleParameter("b", 1);
-
-
-        parametersToDistribution.addDoubleParameter("mean", 0);
-        parametersToDistribution.addDoubleParameter("sd", 1);
+        // Values for the parameters of the distribution that are not configured
+        const std::vector<std::pair<std::string, double>> defaultValues = {
+            {"lower", 0}, {"upper", 1}, {"a", 0}, {"b", 1}, {"mean", 0}, {"sd", 1}
+        };
+
+        for (const auto& defaultValue : defaultValues) {
+            if (!parametersToDistribution.contains(defaultValue.first)) {
+                parametersToDistribution.addDoubleParameter(defaultValue.first,
+                    defaultValue.second);
+            }
+        }
 
         auto distribution = distributionFactory.createDistribution(type,
                 length,
-- 
2.43.0


From 5f7bc3f93df446732004849b568772781b70ecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 53/68] fix: statistics of functionals allocate the ghost cells
 the functional needs

---
 alsfvm/include/alsfvm/volume/Volume.hpp                | 3 ++-
 alsfvm/src/volume/Volume.cpp                           | 7 ++++---
 alsuq/include/alsuq/stats/StatisticsHelper.hpp         | 3 ++-
 alsuq/src/stats/FunctionalStatistics.cpp               | 3 ++-
 alsuq/src/stats/StatisticsHelper.cpp                   | 5 +++--
 alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp | 3 ++-
 6 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/alsfvm/include/alsfvm/volume/Volume.hpp b/alsfvm/include/alsfvm/volume/Volume.hpp
index 18e208c..1ec1c23 100644
--- a/alsfvm/include/alsfvm/volume/Volume.hpp
+++ b/alsfvm/include/alsfvm/volume/Volume.hpp
@@ -318,7 +318,8 @@ public:
     //! Makes a new volume with the same names for the memory areas,
     //! but with the newly given sizes.
     std::shared_ptr<volume::Volume> makeInstance(size_t nx, size_t ny, size_t nz,
-        const std::string& platform = "default") const;
+        const std::string& platform = "default",
+        size_t numberOfGhostCells = 0) const;
 
     //! If the volume is on the CPU, returns a pointer to the current volume,
     //! otherwise, make a new cpu copy, copy data from gpu, and then return
diff --git a/alsfvm/src/volume/Volume.cpp b/alsfvm/src/volume/Volume.cpp
index 0b2e1b2..1187c98 100644
--- a/alsfvm/src/volume/Volume.cpp
+++ b/alsfvm/src/volume/Volume.cpp
@@ -437,10 +437,11 @@ std::shared_ptr<Volume> Volume::makeInstance() const {
 }
 
 std::shared_ptr<Volume> Volume::makeInstance(size_t nxNew, size_t nyNew,
-    size_t nzNew, const std::string& platform) const {
+    size_t nzNew, const std::string& platform,
+    size_t numberOfGhostCells) const {
     if (platform == "default" || platform == memoryFactory->getPlatform()) {
         return std::make_shared<Volume>(variableNames, memoryFactory,
-                nxNew, nyNew, nzNew, 0);
+                nxNew, nyNew, nzNew, numberOfGhostCells);
     } else {
         alsfvm::shared_ptr<DeviceConfiguration> deviceConfiguraiton(
             new DeviceConfiguration(platform));
@@ -448,7 +449,7 @@ std::shared_ptr<Volume> Volume::makeInstance(size_t nxNew, size_t nyNew,
         memoryFactoryForPlatform(new memory::MemoryFactory(deviceConfiguraiton));
 
         return std::make_shared<Volume>(variableNames, memoryFactoryForPlatform, nxNew,
-                nyNew, nzNew, 0);
+                nyNew, nzNew, numberOfGhostCells);
     }
 
 }
diff --git a/alsuq/include/alsuq/stats/StatisticsHelper.hpp b/alsuq/include/alsuq/stats/StatisticsHelper.hpp
index c9b52a8..27a62df 100644
--- a/alsuq/include/alsuq/stats/StatisticsHelper.hpp
+++ b/alsuq/include/alsuq/stats/StatisticsHelper.hpp
@@ -65,7 +65,8 @@ protected:
     StatisticsSnapshot& findOrCreateSnapshot(const std::string& name,
         const alsfvm::simulator::TimestepInformation& timestepInformation,
         const alsfvm::volume::Volume& conservedVariables,
-        size_t nx, size_t ny, size_t nz, const std::string& platform = "default");
+        size_t nx, size_t ny, size_t nz, const std::string& platform = "default",
+        size_t numberOfGhostCells = 0);
 
     void makeOwnGrid(size_t nx, size_t ny, size_t nz);
 private:
diff --git a/alsuq/src/stats/FunctionalStatistics.cpp b/alsuq/src/stats/FunctionalStatistics.cpp
index 9db32be..e473fe3 100644
--- a/alsuq/src/stats/FunctionalStatistics.cpp
+++ b/alsuq/src/stats/FunctionalStatistics.cpp
@@ -51,7 +51,8 @@ void FunctionalStatistics::computeStatistics(
     auto& functionalData = this->findOrCreateSnapshot(statisticsNames[0],
             timestepInformation,
             conservedVariables,
-            gridFunctional.x, gridFunctional.y, gridFunctional.z, platform);
+            gridFunctional.x, gridFunctional.y, gridFunctional.z, platform,
+            functional->getGhostCellSizes(grid, conservedVariables).x);
 
 
 
diff --git a/alsuq/src/stats/StatisticsHelper.cpp b/alsuq/src/stats/StatisticsHelper.cpp
index 5b07e0f..7c756ee 100644
--- a/alsuq/src/stats/StatisticsHelper.cpp
+++ b/alsuq/src/stats/StatisticsHelper.cpp
@@ -136,7 +136,8 @@ StatisticsSnapshot& StatisticsHelper::findOrCreateSnapshot(
     const std::string& name,
     const alsfvm::simulator::TimestepInformation& timestepInformation,
     const alsfvm::volume::Volume& conservedVariables,
-    size_t nx, size_t ny, size_t nz, const std::string& platform) {
+    size_t nx, size_t ny, size_t nz, const std::string& platform,
+    size_t numberOfGhostCells) {
     auto currentTime = timestepInformation.getCurrentTime();
 
 
@@ -154,7 +155,7 @@ StatisticsSnapshot& StatisticsHelper::findOrCreateSnapshot(
         }
 
         auto conservedVariablesClone = conservedVariables.makeInstance(nx, ny, nz,
-                platform);
+                platform, numberOfGhostCells);
 
         snapshots[currentTime][name] = StatisticsSnapshot(timestepInformation,
                 alsfvm::volume::VolumePair(conservedVariablesClone));
diff --git a/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp b/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp
index cf2f41f..5c887da 100644
--- a/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp
+++ b/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp
@@ -59,7 +59,8 @@ void TimeIntegratedFunctionalStatistics::computeStatistics(
     auto& functionalTime = this->findOrCreateSnapshot(statisticsNames[0],
             fixedTimestepInformation,
             conservedVariables,
-            gridFunctional.x, gridFunctional.y, gridFunctional.z, platform);
+            gridFunctional.x, gridFunctional.y, gridFunctional.z, platform,
+            functional->getGhostCellSizes(grid, conservedVariables).x);
 
     if (std::abs(currentTime - time) <= timeRadius) {
         // Now we should write
-- 
2.43.0


From 1f85a32e52590d38cc66ea3113f93a874622a9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 54/68] fix: structure statistics look at both boundaries of
 their directions

---
 alsuq/src/stats/StructureBasic.cpp     | 13 +++++++++++--
 alsuq/src/stats/StructureTwoPoints.cpp |  9 +++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/alsuq/src/stats/StructureBasic.cpp b/alsuq/src/stats/StructureBasic.cpp
index 907ac75..517ddb4 100644
--- a/alsuq/src/stats/StructureBasic.cpp
+++ b/alsuq/src/stats/StructureBasic.cpp
@@ -45,11 +45,20 @@ void StructureBasic::computeStatistics(const alsfvm::volume::Volume&
             conservedVariables,
             numberOfH, 1, 1);
 
-    if (grid.getBoundaryCondition(2 * direction) == alsfvm::boundary::PERIODIC) {
+    // Both sides of the direction count, one of them is enough to be next to another process
+    const auto boundaryCondition = grid.getBoundaryCondition(2 * direction);
+
+    if (grid.getBoundaryCondition(2 * direction + 1) != boundaryCondition) {
+        THROW("Unsupported boundary condition for StructureBasic structure functions. "
+            << "Maybe you are trying to run MPI with multi_x, multi_y or multi_z > 1?"
+            << " This is not supported in the current version.");
+    }
+
+    if (boundaryCondition == alsfvm::boundary::PERIODIC) {
         computeStructure<alsfvm::boundary::PERIODIC>
         (*structure.getVolumes().getConservedVolume(),
             conservedVariables);
-    } else if (grid.getBoundaryCondition(2 * direction) == alsfvm::boundary::NEUMANN) {
+    } else if (boundaryCondition == alsfvm::boundary::NEUMANN) {
         computeStructure<alsfvm::boundary::NEUMANN>
         (*structure.getVolumes().getConservedVolume(),
             conservedVariables);
diff --git a/alsuq/src/stats/StructureTwoPoints.cpp b/alsuq/src/stats/StructureTwoPoints.cpp
index 672179d..f5974e1 100644
--- a/alsuq/src/stats/StructureTwoPoints.cpp
+++ b/alsuq/src/stats/StructureTwoPoints.cpp
@@ -40,10 +40,11 @@ void StructureTwoPoints::computeStatistics(const alsfvm::volume::Volume&
     conservedVariables,
     const alsfvm::grid::Grid& grid,
     const alsfvm::simulator::TimestepInformation& timestepInformation) {
-    if (grid.getBoundaryCondition(2 * direction1) == alsfvm::boundary::MPI_BC
-        || grid.getBoundaryCondition(2 * direction2) == alsfvm::boundary::MPI_BC) {
-        THROW("structure_2pt is not supported with several processes along its directions "
-            << "(multi_x, multi_y or multi_z > 1).");
+    for (int side : {2 * direction1, 2 * direction1 + 1, 2 * direction2, 2 * direction2 + 1}) {
+        if (grid.getBoundaryCondition(side) == alsfvm::boundary::MPI_BC) {
+            THROW("structure_2pt is not supported with several processes along its directions "
+                << "(multi_x, multi_y or multi_z > 1).");
+        }
     }
 
     auto& structure = this->findOrCreateSnapshot(statisticsName,
-- 
2.43.0


From 745b722c116b1319e01e5ad22e89af61f455b10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 55/68] fix: initial data parameters can be set through the
 Python interface

---
 python/alsvinn/alsvinn.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index dc14ce0..7412ce7 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -52,10 +52,9 @@ class Alsvinn(object):
         if parameters != None:
             self.fvmSettings["initialData"]["parameters"] = []
             for parameter_name in parameters.keys():
-                parameter = {"name" : parameter_name, "length" : len(parameters[parameter_name])}
-                parameter["values"] = []
-                for value in parameters[key]:
-                    parameter["value"].append(value)
+                values = numpy.atleast_1d(parameters[parameter_name]).tolist()
+                parameter = {"name" : parameter_name, "length" : len(values),
+                             "values" : values}
 
                 self.fvmSettings["initialData"]["parameters"].append(parameter)
 
-- 
2.43.0


From 6898d304c8c942090a361f39eb0cedd8d236a374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 56/68] fix: the Python interface uses all of dimension,
 lower_corner and upper_corner

---
 python/alsvinn/alsvinn.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 7412ce7..d2fb101 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -554,12 +554,13 @@ else:
 
     if dimension is not None and upper_corner is not None and lower_corner is not None:
         alsvinn_object.set_cartesian_grid(lower_corner, upper_corner, dimension)
-    elif dimension is not None:
-        alsvinn_object.set_dimension(dimension)
-    elif lower_corner is not None:
-        alsvinn_object.set_lower_corner(lower_corner)
-    elif upper_corner is not None:
-        alsvinn_object.set_upper_corner(upper_corner)
+    else:
+        if dimension is not None:
+            alsvinn_object.set_dimension(dimension)
+        if lower_corner is not None:
+            alsvinn_object.set_lower_corner(lower_corner)
+        if upper_corner is not None:
+            alsvinn_object.set_upper_corner(upper_corner)
     if initial_data_script != None:
         initial_data_file = name + ".py"
         with open(initial_data_file, "w") as f:
-- 
2.43.0


From e523150aa2b68e25410a1231e8837f070063feea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 57/68] fix: the Python interface uses initial parameters
 together with the script of a base configuration

---
 python/alsvinn/alsvinn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index d2fb101..9d2187f 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -570,6 +570,9 @@ else:
         shutil.copyfile(initial_data_file, name+'.py')
         initial_data_file=name+'.py'
         alsvinn_object.set_initial_data(initial_data_file, initial_parameters)
+    elif initial_parameters is not None:
+        alsvinn_object.set_initial_data(alsvinn_object.fvmSettings["initialData"]["python"],
+                                        initial_parameters)
     if equation_parameters is not None:
         alsvinn_object.set_equation_parameters(equation_parameters)
 
-- 
2.43.0


From 56421eb848119b939de39f7071413e0794754baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 58/68] fix: get_line_segment returns the midpoints of the
 cells

---
 python/alsvinn/alsvinn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 9d2187f..8a3ae2a 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -203,10 +203,10 @@ class Alsvinn(object):
         max_x = self.fvmSettings["grid"]["upperCorner"][0]
         nx = self.fvmSettings["grid"]["dimension"][0]
 
-        x = numpy.linspace(min_x, max_x, nx)
-        x+= 0.5*(x[1]-x[0])
+        # The midpoints of the cells
+        dx = (max_x - min_x) / nx
 
-        return x
+        return min_x + dx * (numpy.arange(nx) + 0.5)
 
     def get_2d_grid(self):
         min_x = self.fvmSettings["grid"]["lowerCorner"][0]
-- 
2.43.0


From 469b8540100716b57c373c3d45f40a317a7a083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 59/68] fix: the Python interface runs the configuration it is
 given

---
 python/alsvinn/alsvinn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 8a3ae2a..54e4ce8 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -29,10 +29,12 @@ class Alsvinn(object):
         self.fvmSettings = self.settings["fvm"]
         self.uqSettings=self.settings["uq"]
         self.data_path = data_path
+        self.source_xml_path = ''
         if xml_file != None:
             self.read_xml(xml_file)
         
         elif configuration != None:
+            self.settings["fvm"] = configuration
             self.fvmSettings = configuration
         self.alsvinncli = alsvinncli
         self.prepend_alsvinncli = prepend_alsvinncli
-- 
2.43.0


From c301b5d9bdb5f91714078a95be7f9a1623a32ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 60/68] fix: configurations without writer can be run through
 the Python interface

---
 python/alsvinn/alsvinn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 54e4ce8..fa50d4e 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -62,7 +62,7 @@ class Alsvinn(object):
 
 
     def remove_fvm_writer(self):
-        self.fvmSettings["writer"] = None
+        self.fvmSettings.pop("writer", None)
 
     def set_equation_parameters(self, parameters):
         self.fvmSettings["equationParameters"] = parameters
-- 
2.43.0


From fe836a9b7df0c8a59f6172fd4641ec8f68990161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 61/68] fix: statistics and the distribution of a configuration
 file can be changed

---
 python/alsvinn/alsvinn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index fa50d4e..706be02 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -399,7 +399,7 @@ class Alsvinn(object):
         if 'stats' not in self.uqSettings.keys():
             self.uqSettings['stats']  = []
         elif type(self.uqSettings['stats']) is not list:
-            self.uqSettings['stats'] = [self.uqSettings['statistics']['stat']]
+            self.uqSettings['stats'] = list(self.uqSettings['stats'].values())
         self.uqSettings['stats'].append({'name' : statisticsName,
                                                 'numberOfSaves' : numberOfSaves,
                                                 "writeInitialTimestep" : int(writeInitialTimestep),
@@ -412,11 +412,11 @@ class Alsvinn(object):
         if 'functionals' not in self.fvmSettings.keys():
             self.fvmSettings['functionals']  = []
         elif type(self.fvmSettings['functionals']) is not list:
-            self.fvmSettings['functionals'] = [self.fvmSettings['functionals']['functional']]
+            self.fvmSettings['functionals'] = list(self.fvmSettings['functionals'].values())
         self.fvmSettings['functionals'].append(functionalOptions)
 
     def set_distribution(self, distribution):
-        self.uqSettings['parameter']['parameter']['type']=distribution
+        self.uqSettings['parameters']['parameter']['type']=distribution
 
     def set_diffusion(self, operator, reconstruction):
         self.fvmSettings['diffusion'] = {'name' : operator,
-- 
2.43.0


From 23a077a2ff896de378d3b3b650823557baf204fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 62/68] fix: configuration files with comments can be read by
 the Python interface

---
 python/alsvinn/alsvinn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 706be02..6c4325f 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -359,13 +359,15 @@ class Alsvinn(object):
 
         for child in document.childNodes:
 
-            if child.nodeType == child.TEXT_NODE:
+            if child.nodeType in (child.TEXT_NODE, child.COMMENT_NODE):
                 continue
             key = child.tagName
             values = []
             names = []
             textNode = False
             for possibleValue in child.childNodes:
+                if possibleValue.nodeType == child.COMMENT_NODE:
+                    continue
                 if possibleValue.nodeType == child.TEXT_NODE:
                     if possibleValue.nodeValue.strip() != '':
                         values.append(possibleValue)
-- 
2.43.0


From 849ca5ac017f4231a312c240a66867c9ac3a89fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 63/68] fix: numbers of a configuration file can be separated
 by any white space

---
 python/alsvinn/alsvinn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 6c4325f..d7a08e2 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -120,7 +120,7 @@ class Alsvinn(object):
     def __make_float(self, text):
 
         text = text.strip()
-        splitted = text.split(" ")
+        splitted = text.split()
         if len(splitted) == 1:
             return float(splitted[0])
         else:
@@ -131,7 +131,7 @@ class Alsvinn(object):
 
     def __make_int(self, text):
         text = text.strip()
-        splitted = text.split(" ")
+        splitted = text.split()
         if len(splitted) == 1:
             return int(splitted[0])
         else:
-- 
2.43.0


From c5e7d6fa96b4aa7328c2d9d8bcce7e661b5a3cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 64/68] fix: moments are read from the files of the moments

---
 python/alsvinn/alsvinn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index d7a08e2..1b38918 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -257,7 +257,7 @@ class Alsvinn(object):
                     match = re.match(r'm(\d+)', statistics)
                     p_wanted = int(match.group(1))
 
-                    if 'p' in s and int(s['p']) == p_wanted:
+                    if s['name'] == 'onepointmoment' and int(s['p']) == p_wanted:
                         basename = s['writer']['basename']
                         type = s['writer']['type']
                         break
-- 
2.43.0


From 33bcd44fda3db221faeffc768cceadd7a5de05a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 65/68] fix: the Python interface uses a diffusion operator or
 reconstruction given alone

---
 python/alsvinn/alsvinn.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 1b38918..379d52d 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -601,7 +601,12 @@ else:
     if sampleStart is not None:
         alsvinn_object.set_uq_value('sampleStart', sampleStart)
 
-    if diffusion_operator is not None:
+    if diffusion_operator is not None or diffusion_reconstruction is not None:
+        diffusion = alsvinn_object.fvmSettings.get('diffusion') or {}
+        if diffusion_operator is None:
+            diffusion_operator = diffusion.get('name', 'none')
+        if diffusion_reconstruction is None:
+            diffusion_reconstruction = diffusion.get('reconstruction', 'none')
         alsvinn_object.set_diffusion(diffusion_operator, diffusion_reconstruction)
     alsvinn_object.run(multix=multix, multiy=multiy,multiz=multiz, uq=uq, multiSample=multiSample)
 
-- 
2.43.0


From fc1f231898afc795f2bc8bd86682f012df35a9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:19 +0000
Subject: [PATCH 66/68] fix: single initial data parameters of the Python
 interface are written as the program reads them

---
 python/alsvinn/alsvinn.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/alsvinn/alsvinn.py b/python/alsvinn/alsvinn.py
index 379d52d..6b67da5 100644
--- a/python/alsvinn/alsvinn.py
+++ b/python/alsvinn/alsvinn.py
@@ -55,8 +55,12 @@ class Alsvinn(object):
             self.fvmSettings["initialData"]["parameters"] = []
             for parameter_name in parameters.keys():
                 values = numpy.atleast_1d(parameters[parameter_name]).tolist()
-                parameter = {"name" : parameter_name, "length" : len(values),
-                             "values" : values}
+                parameter = {"name" : parameter_name, "length" : len(values)}
+
+                if len(values) == 1:
+                    parameter["value"] = values[0]
+                else:
+                    parameter["values"] = values
 
                 self.fvmSettings["initialData"]["parameters"].append(parameter)
 
-- 
2.43.0


From 7fdb7a6414a9c97b3f2ad6acde5c87e02ee332bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:15 +0000
Subject: [PATCH 67/68] fix: the run report in XML has valid element names and
 can be read

---
 alsutils/include/alsutils/get_boost_properties.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alsutils/include/alsutils/get_boost_properties.hpp b/alsutils/include/alsutils/get_boost_properties.hpp
index c660644..f7dfc0a 100644
--- a/alsutils/include/alsutils/get_boost_properties.hpp
+++ b/alsutils/include/alsutils/get_boost_properties.hpp
@@ -29,9 +29,9 @@ inline boost::property_tree::ptree getBoostProperties() {
     properties.put("BOOST_LIBSTDCXX_VERSION", BOOST_LIBSTDCXX_VERSION);
     #endif
     #ifdef BOOST_LIBSTDCXX11
-    properties.put("C++11", true);
+    properties.put("CXX11", true);
 #else
-    properties.add("C++11", false);
+    properties.add("CXX11", false);
     #endif
     properties.put("BOOST_STDLIB", BOOST_STDLIB);
     properties.put("BOOST_STDLIB_CONFIG", BOOST_STDLIB_CONFIG);
-- 
2.43.0


From b495fb6acc8a31cd13dfdc93c70e72a930b0b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:46 +0000
Subject: [PATCH 68/68] fix: the number of steps of an ensemble counts the
 samples of all processes

---
 alsuq/src/run/Runner.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/alsuq/src/run/Runner.cpp b/alsuq/src/run/Runner.cpp
index 285b261..889fab2 100644
--- a/alsuq/src/run/Runner.cpp
+++ b/alsuq/src/run/Runner.cpp
@@ -16,6 +16,7 @@
 #include "alsuq/run/Runner.hpp"
 
 #include "alsutils/log.hpp"
+#include "alsutils/mpi/safe_call.hpp"
 
 namespace alsuq {
 namespace run {
@@ -38,6 +39,7 @@ Runner::Runner(std::shared_ptr<SimulatorCreator> simulatorCreator,
 
 void Runner::run() {
     std::shared_ptr<alsfvm::grid::Grid> grid;
+    unsigned long long timestepsPerformed = 0;
 
     for (size_t sample : sampleNumbers) {
         ALSVINN_LOG(INFO, "Running sample: " << sample << std::endl);
@@ -69,7 +71,7 @@ void Runner::run() {
 
         while (!simulator->atEnd()) {
             simulator->performStep();
-            timestepsPerformedTotal++;
+            timestepsPerformed++;
         }
 
         simulator->finalize();
@@ -77,6 +79,11 @@ void Runner::run() {
 
     }
 
+    // The samples are divided among the processes
+    MPI_SAFE_CALL(MPI_Allreduce(MPI_IN_PLACE, &timestepsPerformed, 1,
+            MPI_UNSIGNED_LONG_LONG, MPI_SUM, mpiConfig->getCommunicator()));
+    timestepsPerformedTotal += timestepsPerformed;
+
     for (auto& statisticsWriter : statistics) {
         statisticsWriter->combineStatistics();
 
-- 
2.43.0

