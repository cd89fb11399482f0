From f08f525993835357fc245b228eeebc55be7a9e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:55 +0000
Subject: [PATCH 01/11] fix: cylinder containment compares the squared distance
 to the squared radius

---
 src/CSGSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CSGSurface.cpp b/src/CSGSurface.cpp
index b4c214b..cc0a01f 100644
--- a/src/CSGSurface.cpp
+++ b/src/CSGSurface.cpp
@@ -170,5 +170,5 @@ bool CylinderX::Contains(const Point& p) const noexcept {
   const auto pw = p.Dot(w);
   // square length of distance from p to axis along projection is strictly less
   // than square radius of cylinder
-  return std::sqrt(pp - pw * pw) < radius * radius;
+  return pp - pw * pw < radius * radius;
 }
-- 
2.43.0


From 561e602909d0cef8f889dd26af6d5adbb5df3559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:57 +0000
Subject: [PATCH 02/11] fix: logarithmic bins put nonpositive values in the
 lowest bin

---
 src/Bins.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 66403b1..681c18d 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -110,6 +110,10 @@ LogspaceBins::LogspaceBins(const pugi::xml_node& logspace_node)
 size_t LogspaceBins::size() const noexcept { return n_bins; }
 
 size_t LogspaceBins::GetIndex(const Real& v) const noexcept {
+  // nonpositive values lie below every boundary
+  if (v <= 0) {
+    return 0;
+  }
   const auto log_v = std::log(v) / std::log(base);
   if (log_v < log_lower_bound) {
     return 0;
-- 
2.43.0


From 5accbfa40e3eb40e5b49e98a7fc41285c218c658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:01 +0000
Subject: [PATCH 03/11] fix: alpha sampling interpolates between the
 neighbouring beta grids

---
 src/ThermalScattering.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index bbc3dec..44deaaa 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -361,8 +361,8 @@ ThermalScattering::Alpha ThermalScattering::SampleAlpha(
   const Real r = snap_to_lower ? 0
                  : snap_to_min
                      ? 1
-                     : (abs_b - betas.at(b_hi_i - 1) /
-                                    (betas.at(b_hi_i) - betas.at(b_hi_i - 1)));
+                     : (abs_b - betas.at(b_hi_i - 1)) /
+                           (betas.at(b_hi_i) - betas.at(b_hi_i - 1));
   const size_t b_s_i =
       r <= std::uniform_real_distribution{}(p.rng) ? b_hi_i - 1 : b_hi_i;
   Beta b_s = sgn_b * betas.at(b_s_i);
-- 
2.43.0


From a467fe7815cb6943131772534f83179849ed2f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:04 +0000
Subject: [PATCH 04/11] fix: alpha sampling accepts beta at or above the last
 beta grid point

---
 src/ThermalScattering.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index 44deaaa..1abaee6 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -350,10 +350,12 @@ ThermalScattering::Alpha ThermalScattering::SampleAlpha(
 
   // For any given abs_b, we have two beta grids to choose from:
   // b_lo <= abs_b < b_hi
+  // If there is no b_hi, we force the use of b_lo
   // For positive b, if beta_cutoff <= b_hi, we force the use of b_lo
   // For negative b, if -b_hi < - E / (k * T), we force the use of b_lo
   const bool snap_to_lower =
-      ((sgn_b == 1 && beta_cutoff <= betas.at(b_hi_i)) ||
+      (b_hi_i == betas.size() ||
+       (sgn_b == 1 && beta_cutoff <= betas.at(b_hi_i)) ||
        (sgn_b == -1 && -betas.at(b_hi_i) < -E / (constants::boltzmann * T)));
   // Handle case where abs_b is less than the smallest beta provided, b_min
   const bool snap_to_min = b_hi_i == 0;
-- 
2.43.0


From b4c9f0633312eb61d279aa74f972620dae829cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 05/11] fix: thermal scattering cross section uses the highest
 temperature above it

---
 src/ThermalScattering.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index 1abaee6..712285e 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -151,7 +151,7 @@ ThermalScattering::GetTotal(const Particle& p) const noexcept {
   const auto T_lo = Ts.at(T_lo_i);
   const auto T_hi = Ts.at(T_hi_i);
   const auto r_T = below_T_min   ? 1
-                   : above_T_max ? 0
+                   : above_T_max ? 1
                                  : (T - T_lo) / (T_hi - T_lo);
   return xs_T_lo + r_T * (xs_T_hi - xs_T_lo);
 }
-- 
2.43.0


From 916f3c80852d0750051ce6ee1670bbb29fb76416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 06/11] fix: thermal scattering modes use the nearest
 temperature outside the grid

---
 src/ThermalScattering.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index 712285e..33f12de 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -209,8 +209,9 @@ ThermalScattering::Beta ThermalScattering::BetaPartition::Evaluate(
   // Linearly interpolate
   const Temperature T_hi = Ts.at(T_hi_i);
   const Temperature T_lo = Ts.at(T_lo_i);
-  const Real sampled_beta =
-      beta_T_lo + (beta_T_hi - beta_T_lo) / (T_hi - T_lo) * (T - T_lo);
+  const Real r_T =
+      below_T_min || above_T_max ? 1 : (T - T_lo) / (T_hi - T_lo);
+  const Real sampled_beta = beta_T_lo + r_T * (beta_T_hi - beta_T_lo);
   return sampled_beta;
 }
 
@@ -250,8 +251,9 @@ ThermalScattering::Alpha ThermalScattering::AlphaPartition::Evaluate(
   // Linearly interpolate
   const Temperature T_hi = Ts.at(T_hi_i);
   const Temperature T_lo = Ts.at(T_lo_i);
-  const Real sampled_alpha =
-      alpha_T_lo + (alpha_T_hi - alpha_T_lo) / (T_hi - T_lo) * (T - T_lo);
+  const Real r_T =
+      below_T_min || above_T_max ? 1 : (T - T_lo) / (T_hi - T_lo);
+  const Real sampled_alpha = alpha_T_lo + r_T * (alpha_T_hi - alpha_T_lo);
   return sampled_alpha;
 }
 
-- 
2.43.0


From e228e9f3b8697857cf435ef720e284e625b137d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:14 +0000
Subject: [PATCH 07/11] fix: evaluation is only valid near its own temperature

---
 src/ContinuousEvaluation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ContinuousEvaluation.cpp b/src/ContinuousEvaluation.cpp
index db8f13a..9638611 100644
--- a/src/ContinuousEvaluation.cpp
+++ b/src/ContinuousEvaluation.cpp
@@ -4,6 +4,8 @@
 #include "HDF5DataSet.hpp"
 #include "pugixml.hpp"
 
+#include <cmath>
+
 // ContinuousEvaluation
 
 //// public
@@ -15,6 +17,6 @@ ContinuousEvaluation::ContinuousEvaluation(
       temperature{evaluation_node.attribute("temperature").as_double()} {}
 
 bool ContinuousEvaluation::IsValid(Temperature requested) const noexcept {
-  const auto relative_error = (requested - temperature) / temperature;
+  const auto relative_error = std::abs(requested - temperature) / temperature;
   return relative_error < constants::relative_temperature_difference_tolerance;
 }
-- 
2.43.0


From 2f6a76e18f9d1736ccdeeb99f32c1b0c5459b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:53 +0000
Subject: [PATCH 08/11] Revert "fix: evaluation is only valid near its own
 temperature"

This reverts commit e228e9f3b8697857cf435ef720e284e625b137d3.
---
 src/ContinuousEvaluation.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ContinuousEvaluation.cpp b/src/ContinuousEvaluation.cpp
index 9638611..db8f13a 100644
--- a/src/ContinuousEvaluation.cpp
+++ b/src/ContinuousEvaluation.cpp
@@ -4,8 +4,6 @@
 #include "HDF5DataSet.hpp"
 #include "pugixml.hpp"
 
-#include <cmath>
-
 // ContinuousEvaluation
 
 //// public
@@ -17,6 +15,6 @@ ContinuousEvaluation::ContinuousEvaluation(
       temperature{evaluation_node.attribute("temperature").as_double()} {}
 
 bool ContinuousEvaluation::IsValid(Temperature requested) const noexcept {
-  const auto relative_error = std::abs(requested - temperature) / temperature;
+  const auto relative_error = (requested - temperature) / temperature;
   return relative_error < constants::relative_temperature_difference_tolerance;
 }
-- 
2.43.0


From a92ee96cb89d6a6c8c0f1bec37a6bc76722d7ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:14 +0000
Subject: [PATCH 09/11] fix: delta tracking decides on a collision where it
 happens

The acceptance probability was computed at the start of the flight, so that in
a cell of varying temperature the cross section at the wrong position decided
whether a tentative collision is real.
---
 src/TransportMethod.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index b1535da..27da800 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -103,18 +103,20 @@ Bank CellDeltaTracking::Transport(
       p.event = p.GetCell().material ? Particle::Event::surface_cross
                                      : Particle::Event::leak;
     }
-    else if (std::bernoulli_distribution{
-                 p.GetCell().material->GetMicroscopicTotal(p) /
-                 p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {
-      // a real collision occurs
-      p.Stream(distance_to_collision);
-      const auto& nuclide = p.SampleNuclide();
-      nuclide.Interact(p);
-    }
     else {
-      // a virtual collision occurs, do nothing
+      // cross sections are those at the collision site
       p.Stream(distance_to_collision);
-      p.event = Particle::Event::virtual_collision;
+      if (std::bernoulli_distribution{
+              p.GetCell().material->GetMicroscopicTotal(p) /
+              p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {
+        // a real collision occurs
+        const auto& nuclide = p.SampleNuclide();
+        nuclide.Interact(p);
+      }
+      else {
+        // a virtual collision occurs, do nothing
+        p.event = Particle::Event::virtual_collision;
+      }
     }
     e.Score(p);
   }
-- 
2.43.0


From 4321b953aaf99282befa66124a297f9b0d006819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:34 +0000
Subject: [PATCH 10/11] fix: indirect effects use the macroscopic cross section

The length of a flight was subtracted from one over a microscopic cross
section; the flight was sampled with the macroscopic one.
---
 src/Perturbation.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Perturbation.cpp b/src/Perturbation.cpp
index 8326cab..df45565 100644
--- a/src/Perturbation.cpp
+++ b/src/Perturbation.cpp
@@ -69,11 +69,13 @@ Real TotalCrossSectionPerturbation::Stream(
     const Particle& p, const Real distance) const noexcept {
   // if Particle is not streaming in a Material which contains the perturbed
   // Nuclide, there is no indirect effect
-  const auto& atom_fractions = p.GetCell().material->afracs;
-  if (atom_fractions.find(nuclide) == atom_fractions.cend()) {
+  const auto& material = *p.GetCell().material;
+  if (material.afracs.find(nuclide) == material.afracs.cend()) {
     return 0;
   }
-  return 1 / Particle::transport_method->GetCollisionProbabilityDensity(p) -
+  // flight distances are sampled with the macroscopic cross section
+  return 1 / (material.number_density *
+              Particle::transport_method->GetCollisionProbabilityDensity(p)) -
          distance;
 }
 
-- 
2.43.0


From 6bc9611dfd21071382eaa3bdaea5d8c16d90a35c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 07:41:56 +0000
Subject: [PATCH 11/11] fix: copied sensitivities belong to the copied
 estimator

Sensitivity::Clone() kept the reference to the Estimator of the original, so
scoring to a copy of an Estimator evaluated the scores of the original, which
may have been destroyed.
---
 src/Estimator.cpp   |  4 ++--
 src/Sensitivity.cpp | 16 +++++++++++++---
 src/Sensitivity.hpp | 14 ++++++++++++--
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/Estimator.cpp b/src/Estimator.cpp
index cbf909e..ff5a413 100644
--- a/src/Estimator.cpp
+++ b/src/Estimator.cpp
@@ -35,10 +35,10 @@ std::unique_ptr<Estimator> Estimator::Create(
 Estimator::Estimator(const Estimator& other) noexcept
     : Scorable(other),
       // IIFE
-      sensitivities{[&other]() noexcept {
+      sensitivities{[this, &other]() noexcept {
         std::vector<std::unique_ptr<Sensitivity>> result;
         for (const auto& sensitivity : other.sensitivities) {
-          result.push_back(sensitivity->Clone());
+          result.push_back(sensitivity->Clone(*this));
         }
         return result;
       }()} {}
diff --git a/src/Sensitivity.cpp b/src/Sensitivity.cpp
index f75f409..d181908 100644
--- a/src/Sensitivity.cpp
+++ b/src/Sensitivity.cpp
@@ -39,6 +39,10 @@ Sensitivity::Sensitivity(
     : Scorable{estimator, perturbation}, estimator{estimator},
       perturbation{perturbation} {}
 
+Sensitivity::Sensitivity(
+    const Sensitivity& other, const Estimator& estimator) noexcept
+    : Scorable{other}, estimator{estimator}, perturbation{other.perturbation} {}
+
 // CurrentTotalCrossSectionSensitivity
 
 //// public
@@ -47,9 +51,15 @@ CurrentTotalCrossSectionSensitivity::CurrentTotalCrossSectionSensitivity(
     const Estimator& estimator, const Perturbation& perturbation) noexcept
     : Sensitivity{estimator, perturbation} {}
 
-std::unique_ptr<Sensitivity>
-CurrentTotalCrossSectionSensitivity::Clone() const noexcept {
-  return std::make_unique<CurrentTotalCrossSectionSensitivity>(*this);
+CurrentTotalCrossSectionSensitivity::CurrentTotalCrossSectionSensitivity(
+    const CurrentTotalCrossSectionSensitivity& other,
+    const Estimator& estimator) noexcept
+    : Sensitivity{other, estimator} {}
+
+std::unique_ptr<Sensitivity> CurrentTotalCrossSectionSensitivity::Clone(
+    const Estimator& estimator) const noexcept {
+  return std::make_unique<CurrentTotalCrossSectionSensitivity>(
+      *this, estimator);
 }
 
 Real CurrentTotalCrossSectionSensitivity::GetScore(
diff --git a/src/Sensitivity.hpp b/src/Sensitivity.hpp
index 168c705..660f692 100644
--- a/src/Sensitivity.hpp
+++ b/src/Sensitivity.hpp
@@ -27,7 +27,9 @@ public:
   /// @brief Virtual destructor (C++ Core Guidelines C.127)
   virtual ~Sensitivity() noexcept;
   /// @brief Virtual constructor, used for deep copying a Sensitivity
-  virtual std::unique_ptr<Sensitivity> Clone() const noexcept = 0;
+  /// @param estimator The Estimator which the new Sensitivity will belong to
+  virtual std::unique_ptr<Sensitivity>
+  Clone(const Estimator& estimator) const noexcept = 0;
   /// @brief Returns a string suitable for printing. Does not return bins since
   ///        the parent Estimator will print it.
   std::string to_string(const Real total_weight) const noexcept;
@@ -39,6 +41,8 @@ protected:
   ///        Perturbation
   Sensitivity(
       const Estimator& estimator, const Perturbation& perturbation) noexcept;
+  /// @brief Copies the scores of another Sensitivity for a given Estimator
+  Sensitivity(const Sensitivity& other, const Estimator& estimator) noexcept;
   /// @brief Estimator whose sensitivity to a Perturbation is being estimated
   const Estimator& estimator;
   /// @brief Perturbation whose effect on an Estimator is being estimated
@@ -53,9 +57,15 @@ public:
   ///        and Perturbation
   CurrentTotalCrossSectionSensitivity(
       const Estimator& estimator, const Perturbation& perturbation) noexcept;
+  /// @brief Copies the scores of another CurrentTotalCrossSectionSensitivity for
+  ///        a given Estimator
+  CurrentTotalCrossSectionSensitivity(
+      const CurrentTotalCrossSectionSensitivity& other,
+      const Estimator& estimator) noexcept;
   /// @brief Returns a pointer to a new instance of
   ///        CurrentTotalCrossSectionSensitivity
-  std::unique_ptr<Sensitivity> Clone() const noexcept override;
+  std::unique_ptr<Sensitivity>
+  Clone(const Estimator& estimator) const noexcept override;
   /// @brief Implements Scorable method
   Real GetScore(const Particle& p) const noexcept override;
 };
-- 
2.43.0

