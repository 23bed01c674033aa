From 685f6424ad719609b77d9a1c541acd64c2045daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:14 +0000
Subject: [PATCH 01/80] fix: Reflect101 padding of an image one pixel wide
 divided by zero

---
 SEFramework/SEFramework/Image/PaddedImage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SEFramework/SEFramework/Image/PaddedImage.h b/SEFramework/SEFramework/Image/PaddedImage.h
index 85bd572..ee37a96 100644
--- a/SEFramework/SEFramework/Image/PaddedImage.h
+++ b/SEFramework/SEFramework/Image/PaddedImage.h
@@ -58,6 +58,7 @@ inline int Reflect101Coordinates(int N, int v) {
   }
 
   int max = N - 1;
+  if (max == 0) return 0;
   v = std::abs(v);
   int offset = v % max;
   int ntimes = v / max;
-- 
2.43.0


From 5bd92653ef35022149dfb89c8fe2dc782c74479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 02/80] fix: aperture bounding boxes were truncated towards
 zero and lost covered pixels

---
 SEFramework/src/lib/Aperture/CircularAperture.cpp    | 3 ++-
 SEFramework/src/lib/Aperture/EllipticalAperture.cpp  | 3 ++-
 SEFramework/src/lib/Aperture/TransformedAperture.cpp | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/SEFramework/src/lib/Aperture/CircularAperture.cpp b/SEFramework/src/lib/Aperture/CircularAperture.cpp
index ab5878b..33b1910 100644
--- a/SEFramework/src/lib/Aperture/CircularAperture.cpp
+++ b/SEFramework/src/lib/Aperture/CircularAperture.cpp
@@ -20,6 +20,7 @@
  *  Created on: Oct 08, 2018
  *      Author: Alejandro Alvarez
  */
+#include <cmath>
 #include <iostream>
 #include "SEFramework/Aperture/CircularAperture.h"
 
@@ -77,7 +78,7 @@ SeFloat CircularAperture::getRadiusSquared(SeFloat center_x, SeFloat center_y, S
 }
 
 PixelCoordinate CircularAperture::getMinPixel(SeFloat centroid_x, SeFloat centroid_y) const {
-  return PixelCoordinate(centroid_x - m_radius, centroid_y - m_radius);
+  return PixelCoordinate(std::floor(centroid_x - m_radius), std::floor(centroid_y - m_radius));
 }
 
 PixelCoordinate CircularAperture::getMaxPixel(SeFloat centroid_x, SeFloat centroid_y) const {
diff --git a/SEFramework/src/lib/Aperture/EllipticalAperture.cpp b/SEFramework/src/lib/Aperture/EllipticalAperture.cpp
index 22928bb..dd69fa6 100644
--- a/SEFramework/src/lib/Aperture/EllipticalAperture.cpp
+++ b/SEFramework/src/lib/Aperture/EllipticalAperture.cpp
@@ -22,6 +22,7 @@
  */
 
 #include "SEFramework/Aperture/EllipticalAperture.h"
+#include <cmath>
 #include <iostream>
 namespace SourceXtractor {
 
@@ -78,7 +79,7 @@ PixelCoordinate EllipticalAperture::getMinPixel(SeFloat centroid_x, SeFloat cent
   dy = m_rad_max * std::sqrt(1.0 / (m_cyy - m_cxy * m_cxy / (4.0 * m_cxx)));
 
   // return the absolute values
-  return PixelCoordinate(centroid_x - dx, centroid_y - dy);
+  return PixelCoordinate(std::floor(centroid_x - dx), std::floor(centroid_y - dy));
 }
 
 PixelCoordinate EllipticalAperture::getMaxPixel(SeFloat centroid_x, SeFloat centroid_y) const {
diff --git a/SEFramework/src/lib/Aperture/TransformedAperture.cpp b/SEFramework/src/lib/Aperture/TransformedAperture.cpp
index d88f5b8..0a47962 100644
--- a/SEFramework/src/lib/Aperture/TransformedAperture.cpp
+++ b/SEFramework/src/lib/Aperture/TransformedAperture.cpp
@@ -23,6 +23,7 @@
 
 #include "SEFramework/Aperture/TransformedAperture.h"
 #include <algorithm>
+#include <cmath>
 
 namespace SourceXtractor {
 
@@ -62,7 +63,7 @@ PixelCoordinate TransformedAperture::getMinPixel(SeFloat x, SeFloat y) const {
   auto min_x = std::min({a.first, b.first, c.first, d.first});
   auto min_y = std::min({a.second, b.second, c.second, d.second});
 
-  return PixelCoordinate(x + min_x, y + min_y);
+  return PixelCoordinate(std::floor(x + min_x), std::floor(y + min_y));
 }
 
 PixelCoordinate TransformedAperture::getMaxPixel(SeFloat x, SeFloat y) const {
@@ -77,7 +78,7 @@ PixelCoordinate TransformedAperture::getMaxPixel(SeFloat x, SeFloat y) const {
   auto min_x = std::max({a.first, b.first, c.first, d.first});
   auto min_y = std::max({a.second, b.second, c.second, d.second});
 
-  return PixelCoordinate(x + min_x, y + min_y);
+  return PixelCoordinate(std::ceil(x + min_x), std::ceil(y + min_y));
 }
 
 SeFloat TransformedAperture::getArea(SeFloat center_x, SeFloat center_y, SeFloat pixel_x, SeFloat pixel_y) const {
-- 
2.43.0


From 34fcf1ba83fb43774e7d1c2da7219947101c4863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 03/80] fix: symmetric replacement mirrored pixels just outside
 the image onto its first row or column

---
 SEFramework/src/lib/Aperture/FluxMeasurement.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SEFramework/src/lib/Aperture/FluxMeasurement.cpp b/SEFramework/src/lib/Aperture/FluxMeasurement.cpp
index e64fef6..76b35b8 100644
--- a/SEFramework/src/lib/Aperture/FluxMeasurement.cpp
+++ b/SEFramework/src/lib/Aperture/FluxMeasurement.cpp
@@ -21,6 +21,8 @@
  *      Author: Alejandro Alvarez
  */
 
+#include <cmath>
+
 #include "SEFramework/Aperture/FluxMeasurement.h"
 #include "SEFramework/Image/ImageChunk.h"
 
@@ -36,8 +38,8 @@ getMirrorPixel(SeFloat centroid_x, SeFloat centroid_y,
                SeFloat variance_threshold) {
   centroid_x -= min_pixel.m_x;
   centroid_y -= min_pixel.m_y;
-  auto mirror_x = 2 * centroid_x - pixel_x + 0.49999;
-  auto mirror_y = 2 * centroid_y - pixel_y + 0.49999;
+  int mirror_x = std::floor(2 * centroid_x - pixel_x + 0.49999);
+  int mirror_y = std::floor(2 * centroid_y - pixel_y + 0.49999);
   if (img.isInside(mirror_x, mirror_y)) {
     auto variance_tmp = variance_map.getValue(mirror_x, mirror_y);
     if (variance_tmp < variance_threshold) {
-- 
2.43.0


From dd778b63e50d5bf6364e6758e5edf1909c8bf735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 04/80] fix: QuadTree range query skipped subtrees whose
 corners are out of range

---
 SEUtils/SEUtils/_impl/QuadTree.icpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/SEUtils/SEUtils/_impl/QuadTree.icpp b/SEUtils/SEUtils/_impl/QuadTree.icpp
index dccdba2..701d422 100644
--- a/SEUtils/SEUtils/_impl/QuadTree.icpp
+++ b/SEUtils/SEUtils/_impl/QuadTree.icpp
@@ -84,12 +84,11 @@ std::vector<T> QuadTree<T>::getPointsWithinRange(Coord c, double range) const {
     std::vector<T> points;
     for (int i=0; i<4; i++) {
       if (m_sub_trees[i] != nullptr) {
-        // compare range with distance to closest corner of subtree
-        auto dx_sq = std::min((c.x - m_sub_trees[i]->m_min.x) * (c.x - m_sub_trees[i]->m_min.x),
-            (c.x - m_sub_trees[i]->m_max.x) * (c.x - m_sub_trees[i]->m_max.x));
-        auto dy_sq = std::min((c.y - m_sub_trees[i]->m_min.y) * (c.y - m_sub_trees[i]->m_min.y),
-            (c.y - m_sub_trees[i]->m_max.y) * (c.y - m_sub_trees[i]->m_max.y));
-        if (dx_sq + dy_sq <= range_sq) {
+        // compare range with distance to the closest point of the subtree's box (0 when inside of it)
+        const auto& sub_tree = *m_sub_trees[i];
+        auto dx = std::max(std::max(sub_tree.m_min.x - c.x, c.x - sub_tree.m_max.x), 0.0);
+        auto dy = std::max(std::max(sub_tree.m_min.y - c.y, c.y - sub_tree.m_max.y), 0.0);
+        if (dx * dx + dy * dy <= range_sq) {
           auto subtree_points = m_sub_trees[i]->getPointsWithinRange(c, range);
           points.insert(points.end(), subtree_points.begin(), subtree_points.end());
         }
-- 
2.43.0


From 83d427d698bff4480a665d7a196e495372a09370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 05/80] fix: QuadTree recursed without end once a leaf was full
 of points with the same coordinates

---
 SEUtils/SEUtils/QuadTree.h          |  1 +
 SEUtils/SEUtils/_impl/QuadTree.icpp | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/SEUtils/SEUtils/QuadTree.h b/SEUtils/SEUtils/QuadTree.h
index 4d24790..fa92571 100644
--- a/SEUtils/SEUtils/QuadTree.h
+++ b/SEUtils/SEUtils/QuadTree.h
@@ -18,6 +18,7 @@
 #ifndef _SEUTILS_QUADTREE_H_
 #define _SEUTILS_QUADTREE_H_
 
+#include <algorithm>
 #include <vector>
 #include <memory>
 
diff --git a/SEUtils/SEUtils/_impl/QuadTree.icpp b/SEUtils/SEUtils/_impl/QuadTree.icpp
index 701d422..278f908 100644
--- a/SEUtils/SEUtils/_impl/QuadTree.icpp
+++ b/SEUtils/SEUtils/_impl/QuadTree.icpp
@@ -129,11 +129,23 @@ template<typename T>
 void QuadTree<T>::split() {
   assert(!m_is_divided);
 
-  m_is_divided = true;
+  auto tight_max = m_max;
   // expands to a square
   m_max.x = std::max(m_max.x, m_min.x + (m_max.y - m_min.y));
   m_max.y = std::max(m_max.y, m_min.y + (m_max.x - m_min.x));
 
+  // points that dividing cannot separate (e.g. identical coordinates) stay together
+  auto quadrant = [this](const T& d) {
+    return getQuadrant({ Traits::getCoord(d, 0), Traits::getCoord(d, 1) });
+  };
+  if (m_max.x <= m_min.x || m_max.y <= m_min.y ||
+      std::all_of(m_data.begin(), m_data.end(),
+                  [&](const T& d) { return quadrant(d) == quadrant(m_data.front()); })) {
+    m_max = tight_max;
+    return;
+  }
+
+  m_is_divided = true;
   for (auto& d : m_data) {
     add(d);
   }
-- 
2.43.0


From d79b620eb84c1c9ec6e72d8e1c70cfa8b7f6e1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 06/80] fix: dependent parameter kept an old value when
 observed after its inputs had changed

---
 .../ModelFitting/Parameters/DependentParameter.h         | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ModelFitting/ModelFitting/Parameters/DependentParameter.h b/ModelFitting/ModelFitting/Parameters/DependentParameter.h
index c759a11..bc96ad2 100644
--- a/ModelFitting/ModelFitting/Parameters/DependentParameter.h
+++ b/ModelFitting/ModelFitting/Parameters/DependentParameter.h
@@ -68,7 +68,8 @@ public:
   virtual ~DependentParameter() = default;
 
   double getValue() const override {
-    if (!this->isObserved()) {
+    if (m_stale || !this->isObserved()) {
+      m_stale = false;
       const_cast<DependentParameter*>(this)->update((*m_params)[0]->getValue());
     }
     return m_value;
@@ -82,6 +83,9 @@ private:
   // Array of the input parameter
   std::shared_ptr<std::array<std::shared_ptr<BasicParameter>, PARAM_NO>> m_params;
 
+  // An input has changed since the value was last computed
+  mutable bool m_stale = false;
+
   /* The two following methods represent the mechanism to loop over
    * the arbitrary number of variadic elements, the first one is called
    * as long as there is more than one elements in the list and the
@@ -122,6 +126,9 @@ private:
       // Do not bother updating live if there are no observers
       if (this->isObserved()) {
           this->update((*m_params)[0]->getValue());
+      } else {
+          // an input changed: should somebody observe later on, the value has to be computed again
+          m_stale = true;
       }
     });
   }
-- 
2.43.0


From 06bd80def0db436d081c1ed0ac9da2ad1ce8d6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 07/80] fix: dependent parameter left its observers on inputs
 that outlive it

---
 .../ModelFitting/Parameters/DependentParameter.h   | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ModelFitting/ModelFitting/Parameters/DependentParameter.h b/ModelFitting/ModelFitting/Parameters/DependentParameter.h
index bc96ad2..4cf1d04 100644
--- a/ModelFitting/ModelFitting/Parameters/DependentParameter.h
+++ b/ModelFitting/ModelFitting/Parameters/DependentParameter.h
@@ -65,7 +65,12 @@ public:
     //m_get_value_hook = std::bind(&DependentParameter::getValueHook, this);
   }
 
-  virtual ~DependentParameter() = default;
+  virtual ~DependentParameter() {
+    // the inputs may outlive this parameter
+    for (std::size_t i = 0; i < m_observer_ids.size(); ++i) {
+      (*m_params)[i]->removeObserver(m_observer_ids[i]);
+    }
+  }
 
   double getValue() const override {
     if (m_stale || !this->isObserved()) {
@@ -83,6 +88,9 @@ private:
   // Array of the input parameter
   std::shared_ptr<std::array<std::shared_ptr<BasicParameter>, PARAM_NO>> m_params;
 
+  // Identifiers of the observers set on the inputs, in the same order
+  std::vector<std::size_t> m_observer_ids;
+
   // An input has changed since the value was last computed
   mutable bool m_stale = false;
 
@@ -122,7 +130,7 @@ private:
 
   template<typename Param>
   void addParameterObserver(int, Param& param) {
-    param->addObserver([this](double){
+    m_observer_ids.push_back(param->addObserver([this](double){
       // Do not bother updating live if there are no observers
       if (this->isObserved()) {
           this->update((*m_params)[0]->getValue());
@@ -130,7 +138,7 @@ private:
           // an input changed: should somebody observe later on, the value has to be computed again
           m_stale = true;
       }
-    });
+    }));
   }
 };
 
-- 
2.43.0


From 95683731db2e4a6b497538c7fd5f03b17c0c9822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 08/80] fix: moved rotated model component did not follow its
 angle and crashed on destruction

---
 ModelFitting/src/lib/Models/RotatedModelComponent.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ModelFitting/src/lib/Models/RotatedModelComponent.cpp b/ModelFitting/src/lib/Models/RotatedModelComponent.cpp
index 5714cf9..69a846f 100644
--- a/ModelFitting/src/lib/Models/RotatedModelComponent.cpp
+++ b/ModelFitting/src/lib/Models/RotatedModelComponent.cpp
@@ -38,11 +38,9 @@ RotatedModelComponent::RotatedModelComponent(std::unique_ptr<ModelComponent> com
   });
 }
 
+// The new object needs an observer of its own, as that of other updates other
 RotatedModelComponent::RotatedModelComponent(RotatedModelComponent&& other)
-        : m_component {std::move(other.m_component)},
-          m_rotation_angle{std::move(other.m_rotation_angle)},
-          m_cos{other.m_cos}, m_sin{other.m_sin},
-          m_observer_id (other.m_observer_id) {
+        : RotatedModelComponent(std::move(other.m_component), other.m_rotation_angle) {
 }
 
 RotatedModelComponent::~RotatedModelComponent() {
-- 
2.43.0


From e745a45d75b974a2c8255f41bcb2a1b81a589771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 09/80] fix: moved transformed model component lost the
 component it decorates

---
 ModelFitting/src/lib/Models/TransformModelComponent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ModelFitting/src/lib/Models/TransformModelComponent.cpp b/ModelFitting/src/lib/Models/TransformModelComponent.cpp
index fa87b81..3eecc14 100644
--- a/ModelFitting/src/lib/Models/TransformModelComponent.cpp
+++ b/ModelFitting/src/lib/Models/TransformModelComponent.cpp
@@ -46,7 +46,8 @@ TransformModelComponent::TransformModelComponent(
   assert(m_transform[2] * m_inv_transform[1] + m_transform[3] * m_inv_transform[3] >= 1 - 1e-8);
 }
 
-TransformModelComponent::TransformModelComponent(TransformModelComponent&& other) {
+TransformModelComponent::TransformModelComponent(TransformModelComponent&& other)
+    : m_component(std::move(other.m_component)) {
   for (int i = 0; i < 4; i++) {
     m_transform[i] = other.m_transform[i];
     m_inv_transform[i] = other.m_inv_transform[i];
-- 
2.43.0


From 8324e0dc691e8c3f37e6cedc958d018cc64a2afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 10/80] fix: engine parameter notified its observers before its
 engine value was updated

---
 ModelFitting/src/lib/Parameters/EngineParameter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ModelFitting/src/lib/Parameters/EngineParameter.cpp b/ModelFitting/src/lib/Parameters/EngineParameter.cpp
index d3d8bed..4427efb 100644
--- a/ModelFitting/src/lib/Parameters/EngineParameter.cpp
+++ b/ModelFitting/src/lib/Parameters/EngineParameter.cpp
@@ -37,8 +37,9 @@ double EngineParameter::getEngineToWorldDerivative() const {
 }
 
 void EngineParameter::setValue(const double value) {
-  BasicParameter::setValue(value);
+  // before the observers are told, as they may look at the engine value
   m_engine_value = m_converter->worldToEngine(value);
+  BasicParameter::setValue(value);
 }
 
 
-- 
2.43.0


From 9096400dfd49583af41bcb41bf9c36c1bca00dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:18 +0000
Subject: [PATCH 11/80] fix: exponential range gave infinite engine values at
 its bounds

---
 ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp b/ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp
index 1f67b37..36f5007 100644
--- a/ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp
+++ b/ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp
@@ -41,7 +41,10 @@ double ExpSigmoidConverter::worldToEngine(const double world_value) const {
   }
 
   auto wv = std::max(m_min_value, std::min(m_max_value, world_value));
-  return log(log(wv / m_min_value) / log(m_max_value / wv));
+  // keep the engine value finite at the bounds, like SigmoidConverter
+  double num = log(wv / m_min_value);
+  double den = log(m_max_value / wv);
+  return (num > 1e-50 ? (den > 1e-50 ? log(num / den) : 50.0) : -50.0);
 }
 
 
-- 
2.43.0


From c85a5f835ff4cd0b022c7e4cbce41296c16b35b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 12/80] fix: GSL engine left the parameters at its last trial
 point instead of the solution

---
 ModelFitting/src/lib/Engine/GSLEngine.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ModelFitting/src/lib/Engine/GSLEngine.cpp b/ModelFitting/src/lib/Engine/GSLEngine.cpp
index 4d31f10..c096010 100644
--- a/ModelFitting/src/lib/Engine/GSLEngine.cpp
+++ b/ModelFitting/src/lib/Engine/GSLEngine.cpp
@@ -194,6 +194,9 @@ LeastSquareSummary GSLEngine::solveProblem(ModelFitting::EngineParameterManager&
     &info,    // Convergence information if GSL_SUCCESS
     workspace // The solver workspace
   );
+  // The last evaluation may have been a rejected step, or one perturbed for the finite differences: leave the parameters
+  // at the solution
+  parameter_manager.updateEngineValues(GslVectorConstIterator{gsl_multifit_nlinear_position(workspace)});
   auto end     = std::chrono::steady_clock::now();
   std::chrono::duration<float> elapsed = end - start;
 
-- 
2.43.0


From 67edfe97391a3ffbe6d78f9592051ebddbe533b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 13/80] fix: least square engine names that differ in case
 replaced one another silently

---
 ModelFitting/src/lib/Engine/LeastSquareEngineManager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ModelFitting/src/lib/Engine/LeastSquareEngineManager.cpp b/ModelFitting/src/lib/Engine/LeastSquareEngineManager.cpp
index c57dc69..d0f49a8 100644
--- a/ModelFitting/src/lib/Engine/LeastSquareEngineManager.cpp
+++ b/ModelFitting/src/lib/Engine/LeastSquareEngineManager.cpp
@@ -35,10 +35,11 @@ static std::map<std::string, LeastSquareEngineManager::FactoryMethod>& getEngine
 
 
 void LeastSquareEngineManager::registerEngine(const std::string& name, FactoryMethod factory_method) {
-  if (getEngineFactories().find(name) != getEngineFactories().end()) {
+  auto key = boost::algorithm::to_lower_copy(name);
+  if (getEngineFactories().find(key) != getEngineFactories().end()) {
     throw Elements::Exception() << "A LeastSquareEngine named " << name << " has already been registered";
   }
-  getEngineFactories()[boost::algorithm::to_lower_copy(name)] = factory_method;
+  getEngineFactories()[key] = factory_method;
 }
 
 std::vector<std::string> LeastSquareEngineManager::getImplementations() {
-- 
2.43.0


From 2ed875b267d3a74f4314c44f409851b5bb0d8d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 14/80] fix: images added to a writeable image were displaced
 by one pixel

The one-based position that interpolate_pix expects was taken from the
corner of the pixel, and truncated towards zero: the image appeared one
pixel right of and above where the vector image variant puts it.
---
 .../SEImplementation/Image/WriteableImageInterfaceTraits.h  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h b/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h
index 7c8cd31..952cf46 100644
--- a/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h
+++ b/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h
@@ -192,13 +192,13 @@ struct ImageTraits<WriteableInterfaceTypePtr> {
     int window_height = height(window);
     for (int x_win = 0; x_win < window_width; x_win++) {
       for (int y_win = 0; y_win < window_height; y_win++) {
-        float x = (x_win - x_shift) / scale_factor;
-        float y = (y_win - y_shift) / scale_factor;
+        float x = (x_win + 0.5 - x_shift) / scale_factor + 0.5;
+        float y = (y_win + 0.5 - y_shift) / scale_factor + 0.5;
 
         // Work around the interface of interpolate_pix copying to memory the pixels surrounding
         // the pixel to interpolate
         float buffer[INTERP_MAXKERNELWIDTH * INTERP_MAXKERNELWIDTH] = {0.};
-        int ix = x, iy = y;
+        int ix = std::floor(x), iy = std::floor(y);
 
         for (int j = 0; j < INTERP_MAXKERNELWIDTH; ++j) {
           for (int i = 0; i < INTERP_MAXKERNELWIDTH; ++i) {
-- 
2.43.0


From 949c0ae0ee8d33ab404b2814468c7db586f95daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 15/80] fix: median filter read beyond the image when its box
 is larger than the image

---
 .../SEImplementation/Background/SE/MedianFilter.h          | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/SEImplementation/SEImplementation/Background/SE/MedianFilter.h b/SEImplementation/SEImplementation/Background/SE/MedianFilter.h
index 28b463d..a7724dd 100644
--- a/SEImplementation/SEImplementation/Background/SE/MedianFilter.h
+++ b/SEImplementation/SEImplementation/Background/SE/MedianFilter.h
@@ -20,6 +20,7 @@
 
 #include "SEFramework/Image/VectorImage.h"
 #include "SEFramework/Image/WriteableImage.h"
+#include <algorithm>
 #include <array>
 
 namespace SourceXtractor {
@@ -126,11 +127,7 @@ private:
    */
   static int clip(int position, int box_size, int image_size) {
     box_size /= 2;
-    if (box_size > position)
-      return position;
-    if (box_size > image_size - position - 1)
-      return image_size - position - 1;
-    return box_size;
+    return std::min({box_size, position, image_size - position - 1});
   }
 
   /**
-- 
2.43.0


From d159b3a0e96725df1d6a32d56600f2a4649a0aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:13 +0000
Subject: [PATCH 16/80] fix: weight scaling read an empty list when no cell has
 both noise and weight

---
 .../src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp b/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp
index 3c5edac..cf9589f 100644
--- a/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp
+++ b/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp
@@ -59,6 +59,11 @@ static float computeScaling(const std::shared_ptr<VectorImage<DetectionImage::Pi
     }
   }
 
+  if (ratios.empty()) {
+    bck_model_logger.warn() << "Null or negative global weighting factor: defaulted to 1";
+    return 1.;
+  }
+
   std::sort(ratios.begin(), ratios.end());
   if (ratios.size() % 2 == 1) {
     return ratios[ratios.size() / 2];
-- 
2.43.0


From d4093ddbb1f60209b7ee8d373f55e706d45dc947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:45 +0000
Subject: [PATCH 17/80] fix: background statistics took the noise of images in
 small units for none

---
 .../SEImplementation/Background/SE/KappaSigmaBinning.h          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/SEImplementation/Background/SE/KappaSigmaBinning.h b/SEImplementation/SEImplementation/Background/SE/KappaSigmaBinning.h
index 59103e4..6874c54 100644
--- a/SEImplementation/SEImplementation/Background/SE/KappaSigmaBinning.h
+++ b/SEImplementation/SEImplementation/Background/SE/KappaSigmaBinning.h
@@ -148,7 +148,7 @@ private:
     std::tuple<double, double, size_t> get() {
       mean /= ndata;
       sigma = sigma / ndata - mean * mean;
-      if (sigma > std::numeric_limits<double>::epsilon())
+      if (sigma > std::numeric_limits<double>::epsilon() * mean * mean)
         sigma = std::sqrt(sigma);
       else
         sigma = 0.;
-- 
2.43.0


From 9fe4591e1605dd8da608805b85c474695e02e958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:11 +0000
Subject: [PATCH 18/80] fix: member of a group raised another exception than
 documented for a property without a task

---
 SEFramework/src/lib/Source/EntangledSource.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/Source/EntangledSource.cpp b/SEFramework/src/lib/Source/EntangledSource.cpp
index 32db767..417d308 100644
--- a/SEFramework/src/lib/Source/EntangledSource.cpp
+++ b/SEFramework/src/lib/Source/EntangledSource.cpp
@@ -57,7 +57,12 @@ const Property& SourceGroupWithOnDemandProperties::EntangledSource::getProperty(
     // Getting this exception means the property must be computed at the group level
 
     // Get the group task
-    auto group_task = m_group.m_task_provider->getTask<GroupTask>(property_id);
+    std::shared_ptr<const GroupTask> group_task;
+    try {
+      group_task = m_group.m_task_provider->getTask<GroupTask>(property_id);
+    } catch (const Elements::Exception&) {
+      // The task provider knows no factory for that property
+    }
     if (!group_task) {
       // No task is available to make that property
       throw PropertyNotFoundException(property_id);
-- 
2.43.0


From 6cf60c5b221b9bcb1b87a188df03dae6a826a6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:59 +0000
Subject: [PATCH 19/80] fix: LDAC headers lost digits of the image keywords

---
 SEImplementation/src/lib/Output/LdacOutput.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Output/LdacOutput.cpp b/SEImplementation/src/lib/Output/LdacOutput.cpp
index 41a7f17..80b0656 100644
--- a/SEImplementation/src/lib/Output/LdacOutput.cpp
+++ b/SEImplementation/src/lib/Output/LdacOutput.cpp
@@ -15,6 +15,8 @@
  * 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA
  */
 
+#include <iomanip>
+#include <limits>
 #include <sstream>
 
 #include <AlexandriaKernel/memory_tools.h>
@@ -45,7 +47,8 @@ std::string generateHeader(const std::string& name, T value, const std::string&
   std::stringstream str;
 
   str << std::setw(8) << std::left << name << "= "
-      << std::scientific << std::setw(20) << std::right << value
+      << std::scientific << std::setprecision(std::numeric_limits<double>::max_digits10 - 1)
+      << std::setw(20) << std::right << value
       << " / ";
 
   if (str.str().size() > 80) {
-- 
2.43.0


From d680b8277a27254f93c01e6cb7544ced88cf14e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:59 +0000
Subject: [PATCH 20/80] fix: LDAC output refused image keywords whose value
 fills the header card

---
 .../src/lib/Output/LdacOutput.cpp             | 45 +++++++------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/SEImplementation/src/lib/Output/LdacOutput.cpp b/SEImplementation/src/lib/Output/LdacOutput.cpp
index 80b0656..f7dd175 100644
--- a/SEImplementation/src/lib/Output/LdacOutput.cpp
+++ b/SEImplementation/src/lib/Output/LdacOutput.cpp
@@ -42,28 +42,26 @@ using namespace Euclid::Table;
 
 namespace {
 
+/// Appends the comment, as far as there is space for it, and fills the header up to its length
+std::string finishHeader(const std::string& header, const std::string& comment) {
+  if (header.size() > 80) {
+    throw Elements::Exception() << "Header cannot exceed 80 characters: \"" << header << "\"";
+  }
+
+  std::string card = header + " / " + comment;
+  card.resize(80, ' ');
+  return card;
+}
+
 template<typename T>
 std::string generateHeader(const std::string& name, T value, const std::string& comment) {
   std::stringstream str;
 
   str << std::setw(8) << std::left << name << "= "
       << std::scientific << std::setprecision(std::numeric_limits<double>::max_digits10 - 1)
-      << std::setw(20) << std::right << value
-      << " / ";
-
-  if (str.str().size() > 80) {
-    throw Elements::Exception() << "Header cannot exceed 80 characters: \"" << str.str() << "\"";
-  }
-
-  size_t remaining = 80 - str.str().size();
-  if (comment.size() < remaining) {
-    str << comment << std::string(remaining - comment.size(), ' ');
-  } else {
-    // truncate comment if too long
-    str << comment.substr(0, remaining);
-  }
+      << std::setw(20) << std::right << value;
 
-  return str.str();
+  return finishHeader(str.str(), comment);
 }
 
 template<>
@@ -73,22 +71,9 @@ std::string generateHeader<std::string>(const std::string& name, std::string val
   quoted_value << boost::io::quoted(value, '\'', '\'');
 
   str << std::setw(8) << std::left << name << "= "
-      << std::setw(20) << std::left << quoted_value.str()
-      << " / ";
-
-  if (str.str().size() > 80) {
-    throw Elements::Exception() << "Header cannot exceed 80 characters: \"" << str.str() << "\"";
-  }
-
-  size_t remaining = 80 - str.str().size();
-  if (comment.size() < remaining) {
-    str << comment << std::string(remaining - comment.size(), ' ');
-  } else {
-    // truncate comment if too long
-    str << comment.substr(0, remaining);
-  }
+      << std::setw(20) << std::left << quoted_value.str();
 
-  return str.str();
+  return finishHeader(str.str(), comment);
 }
 
 static void generateHistory(std::vector<std::string>& headers) {
-- 
2.43.0


From 1f2bfa7d096a39e78c6cf3b08d4b690f173fa2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:59 +0000
Subject: [PATCH 21/80] fix: printing the flags of a saturated source raised an
 exception

---
 SEFramework/SEFramework/Source/SourceFlags.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SEFramework/SEFramework/Source/SourceFlags.h b/SEFramework/SEFramework/Source/SourceFlags.h
index 31870cc..c0467e3 100644
--- a/SEFramework/SEFramework/Source/SourceFlags.h
+++ b/SEFramework/SEFramework/Source/SourceFlags.h
@@ -56,6 +56,7 @@ const std::map<Flags, std::string> FlagsStr = {
   {Flags::NONE, "NONE"},
   {Flags::BIASED, "BIASED"},
   {Flags::BLENDED, "BLENDED"},
+  {Flags::SATURATED, "SATURATED"},
   {Flags::BOUNDARY, "BOUNDARY"},
   {Flags::NEIGHBORS, "NEIGHBORS"},
   {Flags::OUTSIDE, "OUTSIDE"},
-- 
2.43.0


From 2005efed0afb479a06a67bc0128902e24988e74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:08 +0000
Subject: [PATCH 22/80] fix: listing the output properties raised an exception
 when one has no columns yet

---
 SEFramework/src/lib/Output/OutputRegistry.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/Output/OutputRegistry.cpp b/SEFramework/src/lib/Output/OutputRegistry.cpp
index 6cef389..41cc885 100644
--- a/SEFramework/src/lib/Output/OutputRegistry.cpp
+++ b/SEFramework/src/lib/Output/OutputRegistry.cpp
@@ -74,7 +74,12 @@ void OutputRegistry::printPropertyColumnMap(const std::vector<std::string>& prop
       continue;
     }
     std::cout << prop.first << ":\n";
-    for (auto& col : m_property_to_names_map.at(prop.second)) {
+    auto columns = m_property_to_names_map.find(prop.second);
+    if (columns == m_property_to_names_map.end()) {
+      // Configurable outputs have no columns before they are configured
+      continue;
+    }
+    for (auto& col : columns->second) {
       std::cout << "  - " << col;
       auto& info = m_name_to_col_info_map.at(col);
       if (info.description != "") {
-- 
2.43.0


From 1679ff8fb4a3d78232eab67c1f351c128239199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 23/80] fix: prefetcher lost a source which reused the address
 of the one being sent

---
 SEImplementation/src/lib/Prefetcher/Prefetcher.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp b/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp
index 42f6325..530290c 100644
--- a/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp
+++ b/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp
@@ -117,11 +117,13 @@ void Prefetcher::outputLoop() {
       }
       // If it is, send it downstream
       logger.debug() << "Source " << next.m_source_addr << " sent downstream";
+      // The next stage may delete the source, and a new one may reuse the address
+      auto source = std::move(processed->second);
+      m_finished_sources.erase(processed);
       {
         ReverseLock<decltype(output_lock)> release_lock(output_lock);
-        sendSource(std::move(processed->second));
+        sendSource(std::move(source));
       }
-      m_finished_sources.erase(processed);
       m_received.pop_front();
       m_semaphore.release();
     }
-- 
2.43.0


From 4bacdd4318bb9cf1c45769943b4c714d03f2eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 24/80] fix: worker notified a prefetcher which may have been
 destroyed already

---
 SEImplementation/src/lib/Prefetcher/Prefetcher.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp b/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp
index 530290c..b145528 100644
--- a/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp
+++ b/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp
@@ -68,8 +68,9 @@ void Prefetcher::receiveSource(std::unique_ptr<SourceInterface> message) {
     {
       std::lock_guard<std::mutex> lock(m_queue_mutex);
       m_finished_sources.emplace(source_addr, std::move(message));
+      // Within the lock, as the prefetcher may be gone as soon as the source has been sent
+      m_new_output.notify_one();
     }
-    m_new_output.notify_one();
   };
   auto lambda_copyable = [lambda = std::make_shared<decltype(lambda)>(std::move(lambda))](){
     (*lambda)();
-- 
2.43.0


From 214518fe0d99d6b065acec729b76065232f0054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:19 +0000
Subject: [PATCH 25/80] fix: prefetcher waited forever for space in its queue
 after a worker failed

---
 .../SEImplementation/Prefetcher/Prefetcher.h          |  3 +++
 SEImplementation/src/lib/Prefetcher/Prefetcher.cpp    | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/SEImplementation/Prefetcher/Prefetcher.h b/SEImplementation/SEImplementation/Prefetcher/Prefetcher.h
index ea44ce3..16af952 100644
--- a/SEImplementation/SEImplementation/Prefetcher/Prefetcher.h
+++ b/SEImplementation/SEImplementation/Prefetcher/Prefetcher.h
@@ -125,6 +125,9 @@ private:
   /// Termination condition for the output loop
   std::atomic_bool m_stop;
 
+  /// Set when the output loop ends
+  std::atomic_bool m_output_done;
+
   /// Keep the queue under control
   Euclid::Semaphore m_semaphore;
 
diff --git a/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp b/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp
index b145528..ac6934c 100644
--- a/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp
+++ b/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp
@@ -42,7 +42,7 @@ private:
 };
 
 Prefetcher::Prefetcher(const std::shared_ptr<Euclid::ThreadPool>& thread_pool, unsigned max_queue_size)
-  : m_thread_pool(thread_pool), m_stop(false), m_semaphore(max_queue_size) {
+  : m_thread_pool(thread_pool), m_stop(false), m_output_done(false), m_semaphore(max_queue_size) {
   m_output_thread = Euclid::make_unique<std::thread>(&Prefetcher::outputLoop, this);
 }
 
@@ -53,6 +53,12 @@ Prefetcher::~Prefetcher() {
 
 void Prefetcher::receiveSource(std::unique_ptr<SourceInterface> message) {
   m_semaphore.acquire();
+  if (m_output_done) {
+    // Nothing will be sent anymore, because a worker failed
+    m_semaphore.release();
+    m_thread_pool->checkForException(true);
+    throw Elements::Exception() << "The prefetcher is not running";
+  }
 
   intptr_t source_addr = reinterpret_cast<intptr_t>(message.get());
   {
@@ -133,6 +139,9 @@ void Prefetcher::outputLoop() {
       break;
     }
   }
+  // Do not let anyone wait for space in the queue
+  m_output_done = true;
+  m_semaphore.release();
   logger.debug() << "Stopping prefetcher output loop";
 }
 
-- 
2.43.0


From ff47ed33bba41c545c17617678af50937803ff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:19 +0000
Subject: [PATCH 26/80] fix: measurement whose threads were never started
 crashed when it was destroyed

---
 .../src/lib/Measurement/MultithreadedMeasurement.cpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp b/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
index b29fdec..179ab89 100644
--- a/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
+++ b/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
@@ -34,7 +34,7 @@ static Elements::Logging logger = Elements::Logging::getLogger("Multithreading")
 
 
 MultithreadedMeasurement::~MultithreadedMeasurement() {
-  if (m_output_thread->joinable()) {
+  if (m_output_thread && m_output_thread->joinable()) {
     m_output_thread->join();
   }
 }
-- 
2.43.0


From 83475e3fc3bf619ea8c03f154a7761911dc1c464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:03 +0000
Subject: [PATCH 27/80] fix: measurement could stop before the last group was
 sent

---
 .../src/lib/Measurement/MultithreadedMeasurement.cpp          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp b/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
index 179ab89..158bf22 100644
--- a/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
+++ b/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
@@ -44,8 +44,10 @@ void MultithreadedMeasurement::startThreads() {
 }
 
 void MultithreadedMeasurement::stopThreads() {
-  m_input_done = true;
+  // Only once all groups are in the output queue, as a task on its way from the queue of the pool to a thread may be
+  // counted neither as queued nor as running
   m_thread_pool->block();
+  m_input_done = true;
   m_output_thread->join();
   logger.debug() << "All worker threads done!";
 }
-- 
2.43.0


From 0d9fc59bc098e032632b2413553bd8e28ecacee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:44 +0000
Subject: [PATCH 28/80] fix: BFS segmentation published fragments of detections
 which are too large

The search for the pixels of a detection stopped as soon as the detection was
known to extend over too large an area. The pixels which had not been visited
were then taken for new, smaller detections.
---
 .../src/lib/Segmentation/BFSSegmentation.cpp           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp b/SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp
index 8ca5a4b..086e839 100644
--- a/SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp
+++ b/SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp
@@ -74,6 +74,7 @@ void BFSSegmentation::labelSource(PixelCoordinate pc,
 
   PixelCoordinate minPixel = pc;
   PixelCoordinate maxPixel = pc;
+  bool too_large = false;
 
   while (pixels_to_process.size() > 0) {
     auto pixel = pixels_to_process.back();
@@ -86,8 +87,9 @@ void BFSSegmentation::labelSource(PixelCoordinate pc,
     maxPixel.m_y = std::max(maxPixel.m_y, pixel.m_y);
 
     if (maxPixel.m_x - minPixel.m_x > m_max_delta || maxPixel.m_y - minPixel.m_y > m_max_delta) {
-      // The source extends over a too large area, ignore it
-      return;
+      // The source extends over a too large area, ignore it. All its pixels still have to be visited, or what is left
+      // of it would be taken for other sources
+      too_large = true;
     }
 
     for (auto& offset : offsets) {
@@ -100,6 +102,10 @@ void BFSSegmentation::labelSource(PixelCoordinate pc,
     }
   }
 
+  if (too_large) {
+    return;
+  }
+
   auto source = m_source_factory->createSource();
   source->setProperty<PixelCoordinateList>(source_pixels);
   source->setProperty<SourceId>();
-- 
2.43.0


From 3f5c8fbc13793dc0cd1d3d2c447759bca84a8af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:28 +0000
Subject: [PATCH 29/80] fix: attractors partition read the wrong pixels of the
 source's stamp

The stamp is larger than the bounding box of the source: pixels have to be
looked up relative to the stamp's corner, not to that of the bounding box.
---
 .../src/lib/Partition/AttractorsPartitionStep.cpp         | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp b/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
index f5eb987..f1bb585 100644
--- a/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
+++ b/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
@@ -34,18 +34,20 @@ namespace SourceXtractor {
 
 std::vector<std::unique_ptr<SourceInterface>> AttractorsPartitionStep::partition(std::unique_ptr<SourceInterface> source) const {
   using Accessor = ImageAccessor<DetectionImage::PixelType>;
-  Accessor stamp(source->getProperty<DetectionFrameSourceStamp>().getStamp());
+  auto& source_stamp = source->getProperty<DetectionFrameSourceStamp>();
+  Accessor stamp(source_stamp.getStamp());
+  auto stamp_offset = source_stamp.getTopLeft();
   auto& detection_frame = source->getProperty<DetectionFrame>();
   auto& bounds = source->getProperty<PixelBoundaries>();
 
   auto bbox_min = bounds.getMin();
   auto bbox_max = bounds.getMax();
 
-  auto value_function = [bbox_min, bbox_max, &stamp](PixelCoordinate coord) {
+  auto value_function = [bbox_min, bbox_max, stamp_offset, &stamp](PixelCoordinate coord) {
     if (coord.m_x < bbox_min.m_x || coord.m_x > bbox_max.m_x || coord.m_y < bbox_min.m_y || coord.m_y > bbox_max.m_y) {
       return std::numeric_limits<DetectionImage::PixelType>::lowest();
     }
-    auto offset_coord = coord - bbox_min;
+    auto offset_coord = coord - stamp_offset;
     return stamp.getValue(offset_coord.m_x, offset_coord.m_y);
   };
 
-- 
2.43.0


From d270cb42b8ed56b8dcf2bb811e53fc00cb1b6448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:28 +0000
Subject: [PATCH 30/80] fix: sources from the attractors partition had no id

The parts of a split source were created without SourceId, which no task
provides: reading the ids, the blended flag or grouping split sources raised
PropertyNotFoundException.
---
 .../src/lib/Partition/AttractorsPartitionStep.cpp  | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp b/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
index f1bb585..22ebd2d 100644
--- a/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
+++ b/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
@@ -25,7 +25,9 @@
 #include "SEFramework/Image/ImageAccessor.h"
 #include "SEFramework/Property/DetectionFrame.h"
 
+#include "SEFramework/Property/PropertyNotFoundException.h"
 #include "SEImplementation/Property/PixelCoordinateList.h"
+#include "SEImplementation/Property/SourceId.h"
 #include "SEImplementation/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStamp.h"
 #include "SEImplementation/Plugin/PixelBoundaries/PixelBoundaries.h"
 #include "SEImplementation/Partition/AttractorsPartitionStep.h"
@@ -68,10 +70,22 @@ std::vector<std::unique_ptr<SourceInterface>> AttractorsPartitionStep::partition
   if (merged.size() == 1) {
     sources.emplace_back(std::move(source));
   } else {
+    // The parts keep the detection id of the original source, if it has one
+    bool has_id = true;
+    unsigned int detection_id = 0;
+    try {
+      detection_id = source->getProperty<SourceId>().getDetectionId();
+    } catch (const PropertyNotFoundException&) {
+      has_id = false;
+    }
+
     for (auto& source_pixels : merged) {
       auto new_source = m_source_factory->createSource();
       new_source->setProperty<PixelCoordinateList>(source_pixels);
       new_source->setProperty<DetectionFrame>(detection_frame.getEncapsulatedFrame());
+      if (has_id) {
+        new_source->setProperty<SourceId>(detection_id);
+      }
       sources.emplace_back(std::move(new_source));
     }
   }
-- 
2.43.0


From 07f683e9b63d3e73af78b537c81157af590ad5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:28 +0000
Subject: [PATCH 31/80] fix: partition and cleaning lost the detection id of a
 source

When a source which was itself part of a detection was split, or merged by the
cleaning, its own id became the detection id of the new source: sources of one
detection ended up with different detection ids.
---
 SEImplementation/src/lib/Deblending/Cleaning.cpp              | 2 +-
 .../src/lib/Partition/MultiThresholdPartitionStep.cpp         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/src/lib/Deblending/Cleaning.cpp b/SEImplementation/src/lib/Deblending/Cleaning.cpp
index 94d8456..5d83b3f 100644
--- a/SEImplementation/src/lib/Deblending/Cleaning.cpp
+++ b/SEImplementation/src/lib/Deblending/Cleaning.cpp
@@ -160,7 +160,7 @@ std::unique_ptr<SourceInterface> Cleaning::mergeSources(SourceInterface& parent,
   auto new_source = m_source_factory->createSource();
   new_source->setProperty<PixelCoordinateList>(pixel_list);
   new_source->setProperty<DetectionFrame>(parent.getProperty<DetectionFrame>().getEncapsulatedFrame());
-  new_source->setProperty<SourceId>(parent.getProperty<SourceId>().getSourceId());
+  new_source->setProperty<SourceId>(parent.getProperty<SourceId>().getDetectionId());
 
   return new_source;
 }
diff --git a/SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp b/SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp
index afeb33e..4c099cb 100644
--- a/SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp
+++ b/SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp
@@ -130,7 +130,7 @@ private:
 std::vector<std::unique_ptr<SourceInterface>> MultiThresholdPartitionStep::partition(
     std::unique_ptr<SourceInterface> original_source) const {
 
-  auto parent_source_id = original_source->getProperty<SourceId>().getSourceId();
+  auto detection_id = original_source->getProperty<SourceId>().getDetectionId();
 
   auto& detection_frame = original_source->getProperty<DetectionFrame>();
 
@@ -245,7 +245,7 @@ std::vector<std::unique_ptr<SourceInterface>> MultiThresholdPartitionStep::parti
 
   for (auto& new_source : new_sources) {
     new_source->setProperty<DetectionFrame>(detection_frame.getEncapsulatedFrame());
-    new_source->setProperty<SourceId>(parent_source_id);
+    new_source->setProperty<SourceId>(detection_id);
   }
 
   return new_sources;
-- 
2.43.0


From 46096ed2e44ed7dafcb5da48394da2e372e9edde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:45 +0000
Subject: [PATCH 32/80] fix: position angle of the error ellipse

The angle of an ellipse with second moments x2, y2 and xy is half the
argument of (x2 - y2, 2 xy). Taking the absolute value of x2 - y2 gave an angle
which is wrong whenever y2 > x2, and leaving the factor of one half out made it
wrong for all other ellipses too.
---
 .../src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp b/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp
index 59c52a8..dd8f3a1 100644
--- a/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp
+++ b/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp
@@ -97,9 +97,9 @@ void ErrorEllipseTask::computeProperties(SourceInterface& source) const {
 
   // angle of the error ellipse
   SeFloat theta_error, a_error, b_error;
-  SeFloat temp_error = fabs(x_2_error - y_2_error);
-  if (temp_error>0.0)
-	  theta_error = atan2(2.0*x_y_error, temp_error); // when dividing by 2.0 as in SE2 the range is -45 < theta_error < 45 which is smaller than in SE2
+  SeFloat temp_error = x_2_error - y_2_error;
+  if (fabs(temp_error)>0.0)
+	  theta_error = atan2(2.0*x_y_error, temp_error) / 2.0;
   else
 	  theta_error = M_PI /4.0;
 
-- 
2.43.0


From 19fe860f744256e9bba6219fd962b0a6a8c0bf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:15 +0000
Subject: [PATCH 33/80] fix: no peak was found in sources with negative pixel
 values

The peak value started from the smallest positive number instead of the lowest
one: sources without positive pixels, as given by an association catalogue, got
a peak value of 1e-38 at the pixel -1, -1. The multi-threshold partition, whose
thresholds are not defined for negative values, forwards them unchanged as before.
---
 .../SEImplementation/Plugin/PeakValue/PeakValueTask.h      | 2 +-
 .../src/lib/Partition/MultiThresholdPartitionStep.cpp      | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h b/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h
index 1dc7342..f270200 100644
--- a/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h
+++ b/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h
@@ -43,7 +43,7 @@ public:
 
     auto& coordinates = source.getProperty<PixelCoordinateList>().getCoordinateList();
 
-    DetectionImage::PixelType peak_value = std::numeric_limits<DetectionImage::PixelType>::min();
+    DetectionImage::PixelType peak_value = std::numeric_limits<DetectionImage::PixelType>::lowest();
     DetectionImage::PixelType min_value = std::numeric_limits<DetectionImage::PixelType>::max();
 
     unsigned int index=0;
diff --git a/SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp b/SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp
index 4c099cb..b223dcf 100644
--- a/SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp
+++ b/SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp
@@ -149,6 +149,13 @@ std::vector<std::unique_ptr<SourceInterface>> MultiThresholdPartitionStep::parti
   auto min_value = original_source->getProperty<PeakValue>().getMinValue() * .8;
   auto peak_value = original_source->getProperty<PeakValue>().getMaxValue();
 
+  if (min_value <= 0) {
+    // The thresholds are spaced exponentially, which only makes sense for positive values
+    std::vector<std::unique_ptr<SourceInterface>> unchanged;
+    unchanged.emplace_back(std::move(original_source));
+    return unchanged;
+  }
+
   for (auto pixel_coord : pixel_coords) {
     auto value = labelling_image->getValue(pixel_coord);
     thumbnail_image->setValue(pixel_coord - offset, value);
-- 
2.43.0


From 0d8c0cd5cfedaa9ba0fcd0283c4dbfd4b66c8fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 34/80] fix: position angle of shapes along the other diagonal

When both second moments are equal the position angle was always +45 degrees, also if the
source is elongated along the falling diagonal.
---
 .../src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp            | 2 +-
 .../src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp b/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp
index dd8f3a1..3112b9b 100644
--- a/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp
+++ b/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp
@@ -101,7 +101,7 @@ void ErrorEllipseTask::computeProperties(SourceInterface& source) const {
   if (fabs(temp_error)>0.0)
 	  theta_error = atan2(2.0*x_y_error, temp_error) / 2.0;
   else
-	  theta_error = M_PI /4.0;
+	  theta_error = x_y_error < 0.0 ? -M_PI /4.0 : M_PI /4.0;
 
   // major/minor axis for the error ellipse
   temp_error = sqrt(0.25*temp_error*temp_error+x_y_error*x_y_error);
diff --git a/SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp b/SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp
index 2ba368d..77c35ea 100644
--- a/SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp
+++ b/SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp
@@ -76,7 +76,7 @@ void ShapeParametersTask::computeProperties(SourceInterface& source) const {
   if (fabs(x_2 - y_2) > 0.0) {
     theta = atan2(2.0 * x_y, x_2 - y_2) / 2.0;
   } else {
-    theta = M_PI/4.0;
+    theta = x_y < 0.0 ? -M_PI/4.0 : M_PI/4.0;
   }
 
   float temp = x_2 - y_2;
-- 
2.43.0


From d80e7de044e916b411a9f039966c2cabb13c7f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:04 +0000
Subject: [PATCH 35/80] fix: keep tiles that are in use when evicting from the
 tile manager, so that writes to them are not lost

---
 SEFramework/src/lib/Image/TileManager.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/SEFramework/src/lib/Image/TileManager.cpp b/SEFramework/src/lib/Image/TileManager.cpp
index 4848089..77076a3 100644
--- a/SEFramework/src/lib/Image/TileManager.cpp
+++ b/SEFramework/src/lib/Image/TileManager.cpp
@@ -174,11 +174,15 @@ void TileManager::removeTile(TileKey tile_key) {
 }
 
 void TileManager::removeExtraTiles() {
-  while (m_total_memory_used > m_max_memory) {
-    assert(m_tile_list.size() > 0);
-    auto tile_to_remove = m_tile_list.back();
-    removeTile(tile_to_remove);
-    m_tile_list.pop_back();
+  // Starting from the oldest. A tile that somebody else holds is kept: evicting it would not free its memory, and what
+  // is written to it afterwards would be missed by whoever reads the tile from its source again.
+  auto it = m_tile_list.end();
+  while (m_total_memory_used > m_max_memory && it != m_tile_list.begin()) {
+    --it;
+    if (m_tile_map.at(*it).use_count() == 1) {
+      removeTile(*it);
+      it = m_tile_list.erase(it);
+    }
   }
 }
 
-- 
2.43.0


From 9badfc76670b043a17565a31079ff5e4d1fff574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 36/80] fix: flux radius was not a number where the growth
 curve is flat in single precision

---
 .../src/lib/Plugin/FluxRadius/FluxRadiusTask.cpp      | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/FluxRadius/FluxRadiusTask.cpp b/SEImplementation/src/lib/Plugin/FluxRadius/FluxRadiusTask.cpp
index a284c44..0030a51 100644
--- a/SEImplementation/src/lib/Plugin/FluxRadius/FluxRadiusTask.cpp
+++ b/SEImplementation/src/lib/Plugin/FluxRadius/FluxRadiusTask.cpp
@@ -58,8 +58,8 @@ void FluxRadiusTask::computeProperties(SourceInterface& source) const {
       }
       size_t next_i = std::distance(std::begin(growth_curve), next);
 
-      SeFloat y0, y1;
-      DetectionImage::PixelType x0, x1;
+      double y0, y1;
+      double x0, x1;
 
       x1 = *next;
       y1 = steps[next_i];
@@ -72,9 +72,10 @@ void FluxRadiusTask::computeProperties(SourceInterface& source) const {
         y0 = 0;
       }
 
-      SeFloat slope = (y1 - y0) / (x1 - x0);
-      SeFloat target_radius = y0 + (target_flux - x0) * slope;
-      radii.at(i, j) = std::min(target_radius, static_cast<SeFloat>(steps.back()));
+      // The curve may be flat (for instance if all fluxes are 0)
+      double slope = x1 != x0 ? (y1 - y0) / (x1 - x0) : 0.;
+      double target_radius = y0 + (target_flux - x0) * slope;
+      radii.at(i, j) = static_cast<SeFloat>(std::min(target_radius, steps.back()));
     }
   }
   source.setProperty<FluxRadius>(std::move(radii));
-- 
2.43.0


From c938137cca33838c8cf60b75a08d2b5f27ccc163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 37/80] fix: the most represented external flag must not be
 zero, as documented

---
 .../src/lib/Plugin/ExternalFlag/ExternalFlagTask.cpp          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Plugin/ExternalFlag/ExternalFlagTask.cpp b/SEImplementation/src/lib/Plugin/ExternalFlag/ExternalFlagTask.cpp
index 1fd004c..62bde30 100644
--- a/SEImplementation/src/lib/Plugin/ExternalFlag/ExternalFlagTask.cpp
+++ b/SEImplementation/src/lib/Plugin/ExternalFlag/ExternalFlagTask.cpp
@@ -138,7 +138,9 @@ struct Most {
   static std::pair<std::int64_t, int> combine(const std::vector<FlagImage::PixelType> &pixel_flags) {
     std::map<FlagImage::PixelType, int> counters;
     for (auto pix_flag : pixel_flags) {
-      counters[pix_flag] += 1;
+      if (pix_flag != 0) {
+        counters[pix_flag] += 1;
+      }
     }
     std::int64_t flag = 0;
     int count = 0;
-- 
2.43.0


From 5f91162c2f414c598b09606948c2476ee0f602e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 38/80] fix: vignets read the detection frame out of its bounds

---
 .../src/lib/Plugin/Vignet/VignetSourceTask.cpp        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp b/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp
index 15ab07c..3e04675 100644
--- a/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp
+++ b/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp
@@ -22,6 +22,8 @@
  * @author mkuemmel@usm.lmu.de
  */
 
+#include <cmath>
+
 #include "SEImplementation/Property/PixelCoordinateList.h"
 #include <SEImplementation/Plugin/MeasurementFrameInfo/MeasurementFrameInfo.h>
 #include <SEImplementation/Plugin/MeasurementFrameCoordinates/MeasurementFrameCoordinates.h>
@@ -82,11 +84,14 @@ void VignetSourceTask::computeProperties(SourceInterface& source) const {
 
       // copy the pixel value if it is not masked, and if it does not correspond to a detection pixel
       // if it corresponds to a detection pixel, use it if it belongs to the source
-      int detection_x = static_cast<int>(detection_coord.m_x + 0.5);
-      int detection_y = static_cast<int>(detection_coord.m_y + 0.5);
+      int detection_x = static_cast<int>(std::floor(detection_coord.m_x + 0.5));
+      int detection_y = static_cast<int>(std::floor(detection_coord.m_y + 0.5));
 
       bool is_masked = measurement_var_image->getValue(ix, iy) > measurement_var_threshold;
-      bool is_detection_pixel = detection_thresh_image->getValue(detection_x, detection_y) > 0;
+      // the measurement frame may extend beyond the detection frame
+      bool is_detection_pixel = detection_x >= 0 && detection_y >= 0 &&
+          detection_x < detection_thresh_image->getWidth() && detection_y < detection_thresh_image->getHeight() &&
+          detection_thresh_image->getValue(detection_x, detection_y) > 0;
 
       if (!is_masked && (!is_detection_pixel || pixel_coords.contains({detection_x, detection_y}))) {
         vignet_vector[index] = measurement_sub_image->getValue(ix, iy);
-- 
2.43.0


From 3aadd36b405942f6d60ce0d23f94c45dddaf3006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 39/80] fix: layers of data cubes: depth was always 1, any
 layer accepted, the initial layer undefined

---
 SEFramework/SEFramework/FITS/FitsImageSource.h | 2 +-
 SEFramework/src/lib/FITS/FitsImageSource.cpp   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/SEFramework/SEFramework/FITS/FitsImageSource.h b/SEFramework/SEFramework/FITS/FitsImageSource.h
index 5686df9..506f917 100644
--- a/SEFramework/SEFramework/FITS/FitsImageSource.h
+++ b/SEFramework/SEFramework/FITS/FitsImageSource.h
@@ -136,7 +136,7 @@ private:
   int m_depth;
   ImageTile::ImageType m_image_type;
 
-  int m_current_layer;
+  int m_current_layer = 0;
 };
 
 }
diff --git a/SEFramework/src/lib/FITS/FitsImageSource.cpp b/SEFramework/src/lib/FITS/FitsImageSource.cpp
index f68b062..dd9a8c8 100644
--- a/SEFramework/src/lib/FITS/FitsImageSource.cpp
+++ b/SEFramework/src/lib/FITS/FitsImageSource.cpp
@@ -94,7 +94,7 @@ FitsImageSource::FitsImageSource(const std::string& filename, int hdu_number,
     switchHdu(fptr, m_hdu_number);
   }
 
-  fits_get_img_param(fptr, 2, &bitpix, &naxis, naxes, &status);
+  fits_get_img_param(fptr, 3, &bitpix, &naxis, naxes, &status);
   if (status != 0 || (naxis != 2 && naxis != 3)) {
     char error_message[32];
     fits_get_errstatus(status, error_message);
@@ -123,6 +123,7 @@ FitsImageSource::FitsImageSource(const std::string& filename, int width, int hei
     , m_handler(m_file_manager->getFileHandler(filename))
     , m_width(width)
     , m_height(height)
+    , m_depth(1)
     , m_image_type(image_type) {
 
   int status = 0;
@@ -273,7 +274,7 @@ void FitsImageSource::switchHdu(fitsfile *fptr, int hdu_number) const {
 }
 
 void FitsImageSource::setLayer(int layer) {
-  if (layer < 0 && layer >= m_depth) {
+  if (layer < 0 || layer >= m_depth) {
     throw Elements::Exception() << "Trying to access an inexistent data cube layer (" << layer << ") in " << m_filename;
   }
   m_current_layer = layer;
-- 
2.43.0


From 1caf3bdf2fbd3035e3622709fd99fa51c4cd78c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 40/80] fix: FITS headers were cut at the first keyword that
 starts with END

---
 SEFramework/src/lib/FITS/FitsFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/FITS/FitsFile.cpp b/SEFramework/src/lib/FITS/FitsFile.cpp
index 449ced8..309e53c 100644
--- a/SEFramework/src/lib/FITS/FitsFile.cpp
+++ b/SEFramework/src/lib/FITS/FitsFile.cpp
@@ -222,7 +222,7 @@ static std::map<std::string, MetadataEntry> loadHeadersFromFits(fitsfile* fptr)
   int keynum = 1, status = 0;
 
   fits_read_record(fptr, keynum, record, &status);
-  while (status == 0 && strncmp(record, "END", 3) != 0) {
+  while (status == 0 && strcmp(record, "END") != 0) {
     static boost::regex regex("([^=]{8})=([^\\/]*)(\\/(.*))?");
     std::string         record_str(record);
 
-- 
2.43.0


From fb227e10774991842b3054c08c5450909992a21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 41/80] fix: FITS strings that contain a slash were cut there

---
 SEFramework/src/lib/FITS/FitsFile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEFramework/src/lib/FITS/FitsFile.cpp b/SEFramework/src/lib/FITS/FitsFile.cpp
index 309e53c..4acf954 100644
--- a/SEFramework/src/lib/FITS/FitsFile.cpp
+++ b/SEFramework/src/lib/FITS/FitsFile.cpp
@@ -223,7 +223,7 @@ static std::map<std::string, MetadataEntry> loadHeadersFromFits(fitsfile* fptr)
 
   fits_read_record(fptr, keynum, record, &status);
   while (status == 0 && strcmp(record, "END") != 0) {
-    static boost::regex regex("([^=]{8})=([^\\/]*)(\\/(.*))?");
+    static boost::regex regex("([^=]{8})=(\\s*'(?:[^']|'')*'\\s*|[^\\/]*)(\\/(.*))?");
     std::string         record_str(record);
 
     boost::smatch sub_matches;
@@ -299,7 +299,7 @@ void FitsFile::loadHeadFile() {
       current_hdu = *(++hdu_iter);
       is_new_hdu = true;
     } else {
-      static boost::regex regex("([^=]{1,8})=([^\\/]*)(\\/ (.*))?");
+      static boost::regex regex("([^=]{1,8})=(\\s*'(?:[^']|'')*'\\s*|[^\\/]*)(\\/ (.*))?");
       boost::smatch       sub_matches;
       if (boost::regex_match(line, sub_matches, regex) && sub_matches.size() >= 3) {
         auto keyword = boost::to_upper_copy(sub_matches[1].str());
-- 
2.43.0


From 4dff9436dd3e9aed63069aad5452ebb3217c9d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 42/80] fix: empty FITS strings and strings that start with a
 quote were read with a wrong quote

---
 SEFramework/src/lib/FITS/FitsFile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/FITS/FitsFile.cpp b/SEFramework/src/lib/FITS/FitsFile.cpp
index 4acf954..237fce1 100644
--- a/SEFramework/src/lib/FITS/FitsFile.cpp
+++ b/SEFramework/src/lib/FITS/FitsFile.cpp
@@ -77,7 +77,9 @@ static typename MetadataEntry::value_t valueAutoCast(const std::string& value) {
 
   unquoted.reserve(value.size());
   for (auto i = value.begin(); i != value.end(); ++i) {
-    if (*i == '\'' && !escape) {
+    if (*i == '\'' && i == value.begin()) {
+      continue; // opening quote, it does not escape the next one
+    } else if (*i == '\'' && !escape) {
       escape = true;
       // skip this char
     } else {
-- 
2.43.0


From 3a0354bb23c02bcca0520be7943ef5b86412f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 43/80] fix: quotes within strings were not doubled in the
 records given to wcslib

---
 SEFramework/src/lib/FITS/FitsImageSource.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/FITS/FitsImageSource.cpp b/SEFramework/src/lib/FITS/FitsImageSource.cpp
index dd9a8c8..837deff 100644
--- a/SEFramework/src/lib/FITS/FitsImageSource.cpp
+++ b/SEFramework/src/lib/FITS/FitsImageSource.cpp
@@ -28,6 +28,7 @@
 #include <AlexandriaKernel/memory_tools.h>
 #include <ElementsKernel/Exception.h>
 #include <boost/algorithm/string/case_conv.hpp>
+#include <boost/algorithm/string/replace.hpp>
 #include <boost/algorithm/string/trim.hpp>
 #include <boost/filesystem/operations.hpp>
 #include <boost/filesystem/path.hpp>
@@ -69,6 +70,11 @@ ImageTile::ImageType convertImageType(int bitpix) {
   return image_type;
 }
 
+/// Quotes within a FITS string are doubled
+std::string quoteFitsString(const std::string& value) {
+  return "'" + boost::replace_all_copy(value, "'", "''") + "'";
+}
+
 }
 
 FitsImageSource::FitsImageSource(const std::string& filename, int hdu_number,
@@ -297,7 +303,7 @@ std::unique_ptr<std::vector<char>> FitsImageSource::getFitsHeaders(int& number_o
     }
 
     if (headers.at(key).m_value.type() == typeid(std::string)) {
-      record_string += "= '" + VariantCast<std::string>(headers.at(key).m_value) + "'";
+      record_string += "= " + quoteFitsString(VariantCast<std::string>(headers.at(key).m_value));
     }
     else {
       record_string += "= " + VariantCast<std::string>(headers.at(key).m_value);
-- 
2.43.0


From 5d6374032f3232c021e5535f1ccc817792a13423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 44/80] fix: automatic image type of integer FITS images did
 not take BSCALE and BZERO into account

---
 SEFramework/src/lib/FITS/FitsImageSource.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SEFramework/src/lib/FITS/FitsImageSource.cpp b/SEFramework/src/lib/FITS/FitsImageSource.cpp
index 837deff..add0f81 100644
--- a/SEFramework/src/lib/FITS/FitsImageSource.cpp
+++ b/SEFramework/src/lib/FITS/FitsImageSource.cpp
@@ -114,6 +114,8 @@ FitsImageSource::FitsImageSource(const std::string& filename, int hdu_number,
   m_depth = naxis >= 3 ? naxes[2] : 1;
 
   if (image_type < 0) {
+    // the type of the pixel values, once BSCALE and BZERO are applied
+    fits_get_img_equivtype(fptr, &bitpix, &status);
     m_image_type = convertImageType(bitpix);
   }
   else {
-- 
2.43.0


From 1e22c6c0bb852c456e7342005df932bf9622fa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 45/80] fix: the .head file reader dereferenced the iterator
 past the last image HDU

---
 SEFramework/src/lib/FITS/FitsFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/FITS/FitsFile.cpp b/SEFramework/src/lib/FITS/FitsFile.cpp
index 237fce1..23d19c1 100644
--- a/SEFramework/src/lib/FITS/FitsFile.cpp
+++ b/SEFramework/src/lib/FITS/FitsFile.cpp
@@ -298,7 +298,7 @@ void FitsFile::loadHeadFile() {
     }
 
     if (boost::to_upper_copy(line) == "END") {
-      current_hdu = *(++hdu_iter);
+      ++hdu_iter;
       is_new_hdu = true;
     } else {
       static boost::regex regex("([^=]{1,8})=(\\s*'(?:[^']|'')*'\\s*|[^\\/]*)(\\/ (.*))?");
-- 
2.43.0


From e8cbadf7951b062bb06507a6df62dc3f272bd323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 46/80] fix: strings set as metadata of a FITS image were
 written without quotes

---
 SEFramework/src/lib/FITS/FitsImageSource.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/SEFramework/src/lib/FITS/FitsImageSource.cpp b/SEFramework/src/lib/FITS/FitsImageSource.cpp
index add0f81..0e7be57 100644
--- a/SEFramework/src/lib/FITS/FitsImageSource.cpp
+++ b/SEFramework/src/lib/FITS/FitsImageSource.cpp
@@ -346,8 +346,11 @@ void FitsImageSource::setMetadata(const std::string& key, const MetadataEntry& v
   std::ostringstream padded_key, serializer;
   padded_key << std::setw(8) << std::left << key;
 
-  serializer << padded_key.str() << "= " << std::left << std::setw(70)
-             << VariantCast<std::string>(value.m_value);
+  auto value_str = VariantCast<std::string>(value.m_value);
+  if (value.m_value.type() == typeid(std::string)) {
+    value_str = quoteFitsString(value_str);
+  }
+  serializer << padded_key.str() << "= " << std::left << std::setw(70) << value_str;
   auto str = serializer.str();
 
   int status = 0;
-- 
2.43.0


From 65a3d4d6ed9522785cd31850453a1e9b9866bdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 47/80] fix: coordinates of data cubes overran the arrays given
 to wcslib

An image plane has two axes, but wcsp2s and wcss2p read and write as many
numbers as the header has axes.
---
 SEFramework/src/lib/CoordinateSystem/WCS.cpp | 26 ++++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/SEFramework/src/lib/CoordinateSystem/WCS.cpp b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
index ac14c06..53f0995 100644
--- a/SEFramework/src/lib/CoordinateSystem/WCS.cpp
+++ b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
@@ -195,17 +195,33 @@ void WCS::init(char* headers, int number_of_records) {
   // Do a second pass, in relaxed mode. We use the result.
   ret = wcspih(headers, number_of_records, WCSHDR_all, 0, &nreject, &nwcs, &wcs);
   wcsRaiseOnParseError(ret);
-  wcsset(wcs);
-
-  // There are some things worth reporting about which WCS will not necessarily complain
-  wcsCheckHeaders(wcs, headers, number_of_records);
-
   m_wcs = decltype(m_wcs)(wcs, [nwcs](wcsprm* ptr) {
     int nwcs_copy = nwcs;
     wcsfree(ptr);
     wcsvfree(&nwcs_copy, &ptr);
   });
 
+  // The coordinates of a data cube have more axes than the image plane, keep only the two that are used
+  if (wcs->naxis > 2) {
+    int nsub = 2;
+    int axes[2] {1, 2};
+    std::unique_ptr<wcsprm> plane(new wcsprm);
+    plane->flag = -1;
+    ret = wcssub(true, wcs, &nsub, axes, plane.get());
+    if (ret != WCSERR_SUCCESS) {
+      wcsfree(plane.get());
+      throw InvalidCoordinatesException() << wcs_errmsg[ret];
+    }
+    m_wcs = decltype(m_wcs)(plane.release(), [](wcsprm* ptr) {
+      wcsfree(ptr);
+      delete ptr;
+    });
+  }
+  wcsset(m_wcs.get());
+
+  // There are some things worth reporting about which WCS will not necessarily complain
+  wcsCheckHeaders(m_wcs.get(), headers, number_of_records);
+
   int wcsver[3];
   wcslib_version(wcsver);
   if (wcsver[0] < 5 || (wcsver[0] == 5 && wcsver[1] < 18)) {
-- 
2.43.0


From 9f87c3efd42a19d9b15213f8b52f15c45ba0c3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 48/80] fix: longitude and latitude were swapped when the
 header gives the latitude first

---
 SEFramework/src/lib/CoordinateSystem/WCS.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/CoordinateSystem/WCS.cpp b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
index 53f0995..092b038 100644
--- a/SEFramework/src/lib/CoordinateSystem/WCS.cpp
+++ b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
@@ -251,8 +251,14 @@ WorldCoordinate WCS::imageToWorld(ImageCoordinate image_coordinate) const {
   int status = 0;
   int ret_val = wcsp2s(&wcs_copy, 1, 1, pc_array, ic_array, &phi, &theta, wc_array, &status);
   wcsRaiseOnTransformError(&wcs_copy, ret_val);
+
+  // The latitude may come first
+  bool latitude_first = m_wcs->lat == 0 && m_wcs->lng == 1;
   wcsfree(&wcs_copy);
 
+  if (latitude_first) {
+    return WorldCoordinate(wc_array[1], wc_array[0]);
+  }
   return WorldCoordinate(wc_array[0], wc_array[1]);
 }
 
@@ -265,12 +271,16 @@ ImageCoordinate WCS::worldToImage(WorldCoordinate world_coordinate) const {
   double pc_array[2] {0, 0};
   double ic_array[2] {0, 0};
   double wc_array[2] {world_coordinate.m_alpha, world_coordinate.m_delta};
+  if (m_wcs->lat == 0 && m_wcs->lng == 1) {
+    // The latitude comes first
+    std::swap(wc_array[0], wc_array[1]);
+  }
   double phi, theta;
 
   int status = 0;
   int ret_val = wcss2p(&wcs_copy, 1, 1, wc_array, &phi, &theta, ic_array, pc_array, &status);
   if (ret_val != WCSERR_SUCCESS) {
-    logger.warn() << "Bad worldToImage from RA/Dec: " << wc_array[0] << "/" << wc_array[1];
+    logger.warn() << "Bad worldToImage from RA/Dec: " << world_coordinate.m_alpha << "/" << world_coordinate.m_delta;
     pc_array[0] = -std::numeric_limits<double>::infinity();
     pc_array[1] = -std::numeric_limits<double>::infinity();
   }
-- 
2.43.0


From 6f9923968ecd93bc8f54cdd849a6b4ba32a0193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 49/80] fix: a weight file that does not match the data cube
 was not refused

load_fits_data_cube compared the depth of the image cube with itself instead
of with the one of the weight cube, and a multi-extension weight file with
fewer images than layers silently dropped the remaining layers.
---
 .../python/sourcextractor/config/measurement_config.py       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index c275634..7277034 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -246,7 +246,7 @@ class MeasurementConfig:
             weight_dims = weight_fits_file.get_dimensions(weight_hdu)
             if len(weight_dims) == 3:
                 # handle weight as data cube
-                if dims[2] != cube_size:
+                if weight_dims[2] != cube_size:
                     raise ValueError("The weight map cube doesn't match the image cube")
 
                 weight_file_list = [weight_fits_file] * cube_size
@@ -254,6 +254,9 @@ class MeasurementConfig:
                 weight_layer_list = range(cube_size)
             else:
                 # weight is a FITS without a datacube, assume MEF
+                if len(weight_fits_file.hdu_list) < cube_size:
+                    raise ValueError("The weight file has fewer images than the image cube has layers")
+
                 weight_file_list = [weight_fits_file] * cube_size
                 weight_hdu_list = weight_fits_file.hdu_list
                 weight_layer_list = [0] * cube_size
-- 
2.43.0


From 8f90eb9ec5c818af77026e4afd649dcb94ef47b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 50/80] fix: load_fits_image dropped images when the weight
 file has fewer HDUs

Images and weights are zipped, so the images without a weight HDU were
silently left out of the measurement. Refuse the mismatch, as it is already
done for lists of files.
---
 .../python/sourcextractor/config/measurement_config.py          | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index 7277034..23b40f0 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -119,6 +119,8 @@ class MeasurementConfig:
                 weight_hdu_list = [kwargs.pop("weight_hdu")] * len(image_hdu_list)
             else:    
                 weight_hdu_list = weight_file.hdu_list
+                if len(weight_hdu_list) < len(image_hdu_list):
+                    raise ValueError("The weight file has fewer images than the image file")
             weight_file_list = [weight_file] * len(image_hdu_list)
 
         image_list = []
-- 
2.43.0


From ae2764ebfdfbb97a6b1e31c03937f55d4efbf529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 51/80] fix: ConstantModel did not register its parameter

get_params was defined inside to_string, after its return.
---
 .../python/sourcextractor/config/model_fitting.py           | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/model_fitting.py b/SEImplementation/python/sourcextractor/config/model_fitting.py
index 8b8a304..01db25a 100644
--- a/SEImplementation/python/sourcextractor/config/model_fitting.py
+++ b/SEImplementation/python/sourcextractor/config/model_fitting.py
@@ -530,9 +530,9 @@ class ConstantModel(ModelBase):
             return 'ConstantModel[value={}]'.format(self.value)
         else:
             return 'ConstantModel[value={}]'.format(self.value.id)
-        
-        def get_params(self):
-            return [self.value]
+
+    def get_params(self):
+        return [self.value]
 
 
 class SersicModelBase(CoordinateModelBase):
-- 
2.43.0


From 37ac7e1b6e4682594a61cf6ab094c74e1ba248e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 52/80] fix: add_output_column only considered the first
 parameter

Only the first parameter of a list was checked and registered, and a refused
column kept its name reserved.
---
 .../config/measurement_config.py              | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index 23b40f0..e63e368 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -409,22 +409,25 @@ class MeasurementConfig:
         """
         if name in self._used_names:
             raise ValueError('Column {} is already set'.format(name))
-        self._used_names.add(name)
 
         if not isinstance(params, list):
             params = [params]
-        param_type = type(params[0])
 
-        known_subclass = False
         for base in self._column_map:
-            if issubclass(param_type, base):
-                self._column_map[base].append((name, params))
-                known_subclass = True
-        if issubclass(param_type, ParameterBase):
-            self.model_fitting._register_parameter(params[0])
-
-        if not known_subclass:
-            raise TypeError('{} is not a known column type'.format(str(param_type)))
+            if isinstance(params[0], base):
+                break
+        else:
+            raise TypeError('{} is not a known column type'.format(str(type(params[0]))))
+
+        for param in params:
+            if not isinstance(param, base):
+                raise TypeError('{} can not be in the same column as {}'.format(str(type(param)), str(type(params[0]))))
+
+        self._used_names.add(name)
+        self._column_map[base].append((name, params))
+        if base is ParameterBase:
+            for param in params:
+                self.model_fitting._register_parameter(param)
 
 
 global_measurement_config = MeasurementConfig()
-- 
2.43.0


From 25f1e0c07f1c7b219b1fa4714e39b3482d85de12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 53/80] fix: accept a FileList in load_fits_images, as
 documented

---
 .../python/sourcextractor/config/measurement_config.py        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index e63e368..5681ef8 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -21,6 +21,7 @@ import sys
 
 import _SourceXtractorPy as cpp
 
+from .argv import FileList
 from .measurement_images import DataCubeSlice, FitsFile, ImageGroup, MeasurementGroup, \
     MeasurementImage
 from .model_fitting import ModelFitting, ParameterBase
@@ -158,6 +159,9 @@ class MeasurementConfig:
             In case of mismatched list of files
         """
 
+        images, psfs, weights = [list(files) if isinstance(files, FileList) else files
+                                 for files in (images, psfs, weights)]
+
         if isinstance(images, list):
             if len(images) == 0:
                 raise ValueError("An empty list passed to load_fits_images")
-- 
2.43.0


From ca6ca4c273ba27faa5ba35538edb53d4c9519a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 54/80] fix: accept a list of targets in
 add_aperture_photometry, as documented

---
 .../python/sourcextractor/config/measurement_config.py       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index 5681ef8..275acb8 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -61,7 +61,10 @@ class MeasurementConfig:
         return self._model_fitting
 
     def add_measurement_image(self, image):
-        if isinstance(image, MeasurementImage):
+        if isinstance(image, list):
+            for member in image:
+                self.add_measurement_image(member)
+        elif isinstance(image, MeasurementImage):
             if image.id not in self._measurement_images:
                 self._measurement_images[image.id] = image
         elif image.is_leaf():
-- 
2.43.0


From 907bab65996b66efbe4bcb4e0df43cd5858df08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 55/80] fix: ComputeGraphModel modified the dictionary of its
 caller

A second model created with the same dictionary lost _scale, _angle and
_aspect_ratio.
---
 .../python/sourcextractor/config/model_fitting.py             | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/model_fitting.py b/SEImplementation/python/sourcextractor/config/model_fitting.py
index 01db25a..23026ec 100644
--- a/SEImplementation/python/sourcextractor/config/model_fitting.py
+++ b/SEImplementation/python/sourcextractor/config/model_fitting.py
@@ -755,9 +755,7 @@ class ComputeGraphModel(CoordinateModelBase):
         angle_name = "_angle"
         scale_name = "_scale"
 
-        for k in params.keys():
-            if not isinstance(params[k], ParameterBase):
-                params[k] = ConstantParameter(params[k])
+        params = {k: v if isinstance(v, ParameterBase) else ConstantParameter(v) for k, v in params.items()}
 
         aspect_ratio = params[ratio_name] if ratio_name in params.keys() else 1.0
         angle = params[angle_name] if angle_name in params.keys() else 0.0
-- 
2.43.0


From f5592cec5eb7dc0390a5d54a086407990fb939a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 56/80] fix: printing a ComputeGraphModel failed

It has a scale but no effective_radius.
---
 .../python/sourcextractor/config/model_fitting.py         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/model_fitting.py b/SEImplementation/python/sourcextractor/config/model_fitting.py
index 23026ec..966b29f 100644
--- a/SEImplementation/python/sourcextractor/config/model_fitting.py
+++ b/SEImplementation/python/sourcextractor/config/model_fitting.py
@@ -788,12 +788,12 @@ class ComputeGraphModel(CoordinateModelBase):
         str
         """
         if show_params:
-            return 'ComputeGraph[x_coord={}, y_coord={}, flux={}, effective_radius={}, aspect_ratio={}, angle={}]'.format(
-                self.x_coord, self.y_coord, self.flux, self.effective_radius, self.aspect_ratio,
+            return 'ComputeGraph[x_coord={}, y_coord={}, flux={}, scale={}, aspect_ratio={}, angle={}]'.format(
+                self.x_coord, self.y_coord, self.flux, self.scale, self.aspect_ratio,
                 self.angle)
         else:
-            return 'ComputeGraph[x_coord={}, y_coord={}, flux={}, effective_radius={}, aspect_ratio={}, angle={}]'.format(
-                self.x_coord.id, self.y_coord.id, self.flux.id, self.effective_radius.id,
+            return 'ComputeGraph[x_coord={}, y_coord={}, flux={}, scale={}, aspect_ratio={}, angle={}]'.format(
+                self.x_coord.id, self.y_coord.id, self.flux.id, self.scale.id,
                 self.aspect_ratio.id, self.angle.id)
 
     def get_params(self):
-- 
2.43.0


From 7b4334db3229a67bb491a496fd9f430805efa5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 57/80] fix: direction of the minor axis in
 get_world_parameters

The perpendicular to (cos a, sin a) is (-sin a, cos a).
---
 .../python/sourcextractor/config/model_fitting.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/model_fitting.py b/SEImplementation/python/sourcextractor/config/model_fitting.py
index 966b29f..4b188c6 100644
--- a/SEImplementation/python/sourcextractor/config/model_fitting.py
+++ b/SEImplementation/python/sourcextractor/config/model_fitting.py
@@ -994,14 +994,14 @@ def get_world_parameters(x, y, radius, angle, ratio):
             x2 = x + math.cos(angle) * radius
             y2 = y + math.sin(angle) * radius
         else:
-            x2 = x + math.sin(angle) * radius * ratio
+            x2 = x - math.sin(angle) * radius * ratio
             y2 = y + math.cos(angle) * radius * ratio
 
         return x2, y2
 
     def get_minor_axis(x, y, radius, angle, ratio):
         if ratio <= 1:
-            x2 = x + math.sin(angle) * radius * ratio
+            x2 = x - math.sin(angle) * radius * ratio
             y2 = y + math.cos(angle) * radius * ratio
         else:
             x2 = x + math.cos(angle) * radius
-- 
2.43.0


From 0db77b392fd6de986962a89511221df482edfe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 58/80] fix: printing a MeasurementGroup with subgroup names
 that are not strings

---
 .../python/sourcextractor/config/measurement_images.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_images.py b/SEImplementation/python/sourcextractor/config/measurement_images.py
index a5fbbac..29ebb28 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_images.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_images.py
@@ -662,7 +662,7 @@ class MeasurementGroup(object):
                     print('{}  {}'.format(prefix, im), file=file)
         if self.__subgroups:
             print('{}Measurement sub-groups: {}'.format(prefix, ','.join(
-                x for x, _ in self.__subgroups)), file=file)
+                str(x) for x, _ in self.__subgroups)), file=file)
             for name, group in self.__subgroups:
                 print('{}  {}:'.format(prefix, name), file=file)
                 group.print(prefix + '    ', show_images, file=file)
-- 
2.43.0


From 2e31dd362a99c08e4ca6c6a1d851f98b1a616637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 59/80] fix: threshold of absolute weights of flux scaled
 measurement images

---
 .../src/lib/Configuration/MeasurementImageConfig.cpp          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp b/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
index ba81408..0621573 100644
--- a/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
+++ b/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
@@ -210,6 +210,10 @@ void MeasurementImageConfig::initialize(const UserValues&) {
       if (weight_map != nullptr && flux_scale != 1. && py_image.weight_absolute) {
         info.m_weight_image = MultiplyImage<WeightImage::PixelType>::create(
             weight_map, py_image.flux_scale * py_image.flux_scale);
+        if (info.m_weight_threshold < std::numeric_limits<WeightImage::PixelType>::max()) {
+          // adjust the weight threshold
+          info.m_weight_threshold *= py_image.flux_scale * py_image.flux_scale;
+        }
       } else {
         info.m_weight_image = weight_map;
       }
-- 
2.43.0


From 77bda1ef78bb8bee66faf8531cd6b517fbf7441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 60/80] fix: unknown weight type of a measurement image with a
 weight threshold accepted

---
 .../src/lib/Configuration/MeasurementImageConfig.cpp           | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp b/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
index 0621573..59ae37e 100644
--- a/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
+++ b/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
@@ -136,8 +136,7 @@ WeightImage::PixelType extractWeightThreshold(const PyMeasurementImage& py_image
     return std::numeric_limits<WeightImage::PixelType>::max();
   }
   WeightImage::PixelType threshold = py_image.weight_threshold;
-  auto weight_type_name = boost::to_upper_copy(py_image.weight_type);
-  switch (weight_type_map[weight_type_name]) {
+  switch (getWeightType(py_image.weight_type, py_image.weight_file)) {
       default:
       case WeightImageConfig::WeightType::WEIGHT_TYPE_FROM_BACKGROUND:
       case WeightImageConfig::WeightType::WEIGHT_TYPE_RMS:
-- 
2.43.0


From 02d73c315ab5e8a7b8739ba781d26e2116448ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 61/80] fix: refuse segmentation filters with unreadable
 numbers or incomplete rows

---
 .../src/lib/Configuration/SegmentationConfig.cpp           | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Configuration/SegmentationConfig.cpp b/SEImplementation/src/lib/Configuration/SegmentationConfig.cpp
index 04a6438..a0cd2a0 100644
--- a/SEImplementation/src/lib/Configuration/SegmentationConfig.cpp
+++ b/SEImplementation/src/lib/Configuration/SegmentationConfig.cpp
@@ -181,7 +181,9 @@ template <typename T>
 static void extractValues(std::istream& line_stream, std::vector<T>& data) {
   T value;
   while (line_stream.good()) {
-    line_stream >> value;
+    if (!(line_stream >> value)) {
+      throw Elements::Exception() << "Malformed segmentation filter: expected a number";
+    }
     data.push_back(value);
   }
 }
@@ -237,6 +239,9 @@ std::shared_ptr<DetectionImageFrame::ImageFilter> SegmentationConfig::loadASCIIF
   if (kernel_width == 0) {
     throw Elements::Exception() << "Malformed segmentation filter: width is 0";
   }
+  if (kernel_data.size() % kernel_width != 0) {
+    throw Elements::Exception() << "Malformed segmentation filter: rows of different lengths";
+  }
   auto kernel_height = kernel_data.size() / kernel_width;
   auto convolution_kernel = VectorImage<SeFloat>::create(kernel_width, kernel_height, kernel_data);
 
-- 
2.43.0


From 481083734a41d709265793c9b34d3e8932ff44f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 62/80] fix: check images of every detection extension made
 with the size and coordinates of the first

---
 SEImplementation/src/lib/CheckImages/CheckImages.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/CheckImages/CheckImages.cpp b/SEImplementation/src/lib/CheckImages/CheckImages.cpp
index e047002..9271f29 100644
--- a/SEImplementation/src/lib/CheckImages/CheckImages.cpp
+++ b/SEImplementation/src/lib/CheckImages/CheckImages.cpp
@@ -109,8 +109,8 @@ void CheckImages::configure(Euclid::Configuration::ConfigManager& manager) {
   m_check_image_ml_detection.resize(detection_images_nb);
 
   for (size_t i = 0; i < detection_images_nb; i++) {
-    auto detection_image = manager.getConfiguration<DetectionImageConfig>().getDetectionImage();
-    auto coordinate_system = manager.getConfiguration<DetectionImageConfig>().getCoordinateSystem();
+    auto detection_image = manager.getConfiguration<DetectionImageConfig>().getDetectionImage(i);
+    auto coordinate_system = manager.getConfiguration<DetectionImageConfig>().getCoordinateSystem(i);
 
     m_detection_images.emplace_back(detection_image);
     m_coordinate_systems.emplace_back(coordinate_system);
-- 
2.43.0


From de4bf6155d04a73a027b0905bec27ab7621c288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 63/80] fix: ML detection check images of several extensions
 written to the same file

---
 SEImplementation/src/lib/CheckImages/CheckImages.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/CheckImages/CheckImages.cpp b/SEImplementation/src/lib/CheckImages/CheckImages.cpp
index 9271f29..43c0e4e 100644
--- a/SEImplementation/src/lib/CheckImages/CheckImages.cpp
+++ b/SEImplementation/src/lib/CheckImages/CheckImages.cpp
@@ -333,7 +333,7 @@ std::shared_ptr<WriteableImage<MeasurementImage::PixelType>>
       std::make_pair(
         plane_number,
         FitsWriter::newImage<MeasurementImage::PixelType>(
-          frame_filename.native(),
+          addNumberToFilename(frame_filename, index, m_detection_images.size()>1),
           m_detection_images.at(index)->getWidth(),
           m_detection_images.at(index)->getHeight(),
           m_coordinate_systems.at(index)
-- 
2.43.0


From 89b8ea7ad146add4abc36cccced167e322c7f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 64/80] fix: Moffat check image shifted by half a pixel

---
 SEImplementation/src/lib/CheckImages/MoffatCheckImage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/CheckImages/MoffatCheckImage.cpp b/SEImplementation/src/lib/CheckImages/MoffatCheckImage.cpp
index 6e87d8e..9efeeb5 100644
--- a/SEImplementation/src/lib/CheckImages/MoffatCheckImage.cpp
+++ b/SEImplementation/src/lib/CheckImages/MoffatCheckImage.cpp
@@ -52,7 +52,7 @@ void MoffatCheckImage::handleMessage(const SourceGroupInterface& group) {
 
       for (int y=0; y<check_image->getHeight(); y++) {
         for (int x=0; x<check_image->getWidth(); x++) {
-          check_image->setValue(x, y, check_accessor.getValue(x, y) + model.getValue(x - 0.5, y - 0.5));
+          check_image->setValue(x, y, check_accessor.getValue(x, y) + model.getValue(x, y));
         }
       }
     }
-- 
2.43.0


From 08cdcb60c2178976722651a2a99a89c74343e370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 65/80] fix: Moffat check image of one row loses all but the
 last source of a group

---
 SEImplementation/src/lib/CheckImages/MoffatCheckImage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/CheckImages/MoffatCheckImage.cpp b/SEImplementation/src/lib/CheckImages/MoffatCheckImage.cpp
index 9efeeb5..062674d 100644
--- a/SEImplementation/src/lib/CheckImages/MoffatCheckImage.cpp
+++ b/SEImplementation/src/lib/CheckImages/MoffatCheckImage.cpp
@@ -40,7 +40,6 @@ using namespace ModelFitting;
 void MoffatCheckImage::handleMessage(const SourceGroupInterface& group) {
   auto hdu_index = group.cbegin()->getProperty<DetectionFrameInfo>().getHduIndex();
   auto check_image = CheckImages::getInstance().getMoffatImage(hdu_index);
-  ImageAccessor<SeFloat> check_accessor(check_image);
 
   if (check_image != nullptr) {
     for (auto& source : group) {
@@ -50,6 +49,8 @@ void MoffatCheckImage::handleMessage(const SourceGroupInterface& group) {
         continue;
       }
 
+      // The previous source changed the image, and an accessor may hold a copy of a part of it
+      ImageAccessor<SeFloat> check_accessor(check_image);
       for (int y=0; y<check_image->getHeight(); y++) {
         for (int x=0; x<check_image->getWidth(); x++) {
           check_image->setValue(x, y, check_accessor.getValue(x, y) + model.getValue(x, y));
-- 
2.43.0


From 9722b4b7470ae450df95752cddd41cb2b37c9a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 66/80] fix: VariablePsf evaluates the wrong monomials when the
 group of the first component has degree 0

---
 SEFramework/src/lib/Psf/VariablePsf.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/SEFramework/src/lib/Psf/VariablePsf.cpp b/SEFramework/src/lib/Psf/VariablePsf.cpp
index c8367c3..0aa25ed 100644
--- a/SEFramework/src/lib/Psf/VariablePsf.cpp
+++ b/SEFramework/src/lib/Psf/VariablePsf.cpp
@@ -156,14 +156,10 @@ void VariablePsf::calculateExponents() {
   }
 
   // Constant
-  m_exponents[0].resize(m_components.size());
-  --group_exponents[m_components[0].group_id];
+  m_exponents[0] = exp;
 
   // Polynomial
-  exp[0] = 1;
   for (auto e = m_exponents.begin() + 1; e != m_exponents.end(); ++e) {
-    *e = exp;
-
     size_t ei = 0;
     for (auto component : m_components) {
       if (group_exponents[component.group_id] > 0) {
@@ -176,6 +172,8 @@ void VariablePsf::calculateExponents() {
         exp[ei++] = 0;
       }
     }
+
+    *e = exp;
   }
 }
 
-- 
2.43.0


From 76170f3d87acbdc74505e3fe574220f062409ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 67/80] fix: VariablePsf accepts negative group numbers and
 accesses out of bounds

---
 SEFramework/src/lib/Psf/VariablePsf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/Psf/VariablePsf.cpp b/SEFramework/src/lib/Psf/VariablePsf.cpp
index 0aa25ed..153ad3a 100644
--- a/SEFramework/src/lib/Psf/VariablePsf.cpp
+++ b/SEFramework/src/lib/Psf/VariablePsf.cpp
@@ -98,7 +98,7 @@ void VariablePsf::selfTest() {
   // Pre-condition: There is a degree value per unique group
   std::vector<int> n_component_per_group(m_group_degrees.size());
   for (auto& component : m_components) {
-    if (component.group_id >= (int) m_group_degrees.size()) {
+    if (component.group_id < 0 || component.group_id >= (int) m_group_degrees.size()) {
       throw Elements::Exception() << "Component group out of range for " << component.name;
     }
     ++n_component_per_group[component.group_id];
-- 
2.43.0


From 1a5efdb88daca0c0b4846ef3a70bc24f6a17e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 68/80] fix: PSFEx files with too few coefficients are read
 beyond the end of the column

---
 SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp b/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
index 462835f..1462f26 100644
--- a/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
+++ b/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
@@ -105,6 +105,11 @@ static std::shared_ptr<VariablePsf> readPsfEx(std::unique_ptr<CCfits::FITS> &pFi
     psf_data.column("PSF_MASK").readArrays(all_data, 0, 0);
     auto& raw_coeff_data = all_data[0];
 
+    if (n_coeffs < 0 || raw_coeff_data.size() < size_t(n_coeffs) * n_pixels) {
+      throw Elements::Exception() << "PSF_MASK has " << raw_coeff_data.size() << " values, expected " << n_coeffs << " x "
+                                  << n_pixels;
+    }
+
     std::vector<std::shared_ptr<VectorImage<SeFloat>>> coefficients(n_coeffs);
 
     for (int i = 0; i < n_coeffs; ++i) {
-- 
2.43.0


From 084a85c10f8e900c7d48d26ae777f46e85a4cb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 69/80] fix: PSF images of even size or without two axes are
 accepted

---
 SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp b/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
index 1462f26..7ee017e 100644
--- a/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
+++ b/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
@@ -147,6 +147,10 @@ static std::shared_ptr<VariablePsf> readImage(T& image_hdu) {
     pixel_sampling = 1.;
   }
 
+  if (image_hdu.axes() != 2) {
+    throw Elements::Exception() << "A PSF image must have two axes, not " << image_hdu.axes();
+  }
+
   if (image_hdu.axis(0) != image_hdu.axis(1)) {
     throw Elements::Exception() << "Non square image PSF (" << image_hdu.axis(0) << 'X'
                                 << image_hdu.axis(1) << ')';
@@ -154,6 +158,10 @@ static std::shared_ptr<VariablePsf> readImage(T& image_hdu) {
 
   auto size = image_hdu.axis(0);
 
+  if (size % 2 == 0) {
+    throw Elements::Exception() << "PSF kernel must have odd size";
+  }
+
   std::valarray<double> data{};
   image_hdu.read(data);
   auto kernel = VectorImage<SeFloat>::create(size, size);
-- 
2.43.0


From 0e68a7a2e0cc21c5cc67240d14647c349f966ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 70/80] fix: NOPSF as default PSF refused as missing PSF

---
 .../SEImplementation/Plugin/Psf/PsfPluginConfig.h            | 4 ++++
 SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp      | 5 +++++
 SEImplementation/src/lib/Plugin/Psf/PsfTaskFactory.cpp       | 2 +-
 .../src/lib/Plugin/SourcePsf/SourcePsfTaskFactory.cpp        | 2 +-
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/SEImplementation/Plugin/Psf/PsfPluginConfig.h b/SEImplementation/SEImplementation/Plugin/Psf/PsfPluginConfig.h
index 5976df7..95e8b50 100644
--- a/SEImplementation/SEImplementation/Plugin/Psf/PsfPluginConfig.h
+++ b/SEImplementation/SEImplementation/Plugin/Psf/PsfPluginConfig.h
@@ -42,11 +42,15 @@ public:
 
   const std::shared_ptr<Psf>& getPsf() const;
 
+  /// True if a PSF (or NOPSF, in which case getPsf() is null) has been given by the user
+  bool hasPsf() const;
+
   static std::shared_ptr<Psf> readPsf(const std::string &filename, int hdu_number = 1);
   static std::shared_ptr<Psf> generateGaussianPsf(SeFloat fwhm, SeFloat pixel_sampling);
 
 private:
   std::shared_ptr<Psf> m_vpsf;
+  bool m_has_psf = false;
 };
 
 } // end SourceXtractor
diff --git a/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp b/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
index 7ee017e..b485191 100644
--- a/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
+++ b/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
@@ -257,6 +257,7 @@ void PsfPluginConfig::preInitialize(const Euclid::Configuration::Configuration::
 }
 
 void PsfPluginConfig::initialize(const UserValues &args) {
+  m_has_psf = args.find(PSF_FILE) != args.end() || args.find(PSF_FWHM) != args.end();
   if (args.find(PSF_FILE) != args.end()) {
     auto psf_file = args.find(PSF_FILE)->second.as<std::string>();
     logger.debug() << "Provided by user: " << psf_file;
@@ -275,4 +276,8 @@ const std::shared_ptr<Psf>& PsfPluginConfig::getPsf() const {
   return m_vpsf;
 }
 
+bool PsfPluginConfig::hasPsf() const {
+  return m_has_psf;
+}
+
 } // end SourceXtractor
diff --git a/SEImplementation/src/lib/Plugin/Psf/PsfTaskFactory.cpp b/SEImplementation/src/lib/Plugin/Psf/PsfTaskFactory.cpp
index cabdc36..dd63e8f 100644
--- a/SEImplementation/src/lib/Plugin/Psf/PsfTaskFactory.cpp
+++ b/SEImplementation/src/lib/Plugin/Psf/PsfTaskFactory.cpp
@@ -42,7 +42,7 @@ void PsfTaskFactory::configure(Euclid::Configuration::ConfigManager& manager) {
     if (!image_infos[i].m_psf_path.empty()) {
       m_vpsf[image_infos[i].m_id] = PsfPluginConfig::readPsf(image_infos[i].m_psf_path, image_infos[i].m_psf_hdu);
     }
-    else if (default_psf) {
+    else if (psf_config.hasPsf()) {
       m_vpsf[image_infos[i].m_id] = default_psf;
     }
   }
diff --git a/SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTaskFactory.cpp b/SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTaskFactory.cpp
index e94849b..814f2ff 100644
--- a/SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTaskFactory.cpp
+++ b/SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTaskFactory.cpp
@@ -39,7 +39,7 @@ void SourcePsfTaskFactory::configure(Euclid::Configuration::ConfigManager& manag
           image_infos[i].m_psf_renormalize
       };
     }
-    else if (default_psf) {
+    else if (psf_config.hasPsf()) {
       m_psf_infos[image_infos[i].m_id] = { default_psf, true };
     }
   }
-- 
2.43.0


From 12f3c3136f0003f42263caa05e222d17431e0c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 71/80] fix: source PSF check image shifted by half a pixel

---
 SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTask.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTask.cpp b/SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTask.cpp
index 3879cd2..63b70f4 100644
--- a/SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTask.cpp
+++ b/SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTask.cpp
@@ -65,8 +65,9 @@ void SourcePsfTask::computeProperties(SourceXtractor::SourceInterface &source) c
     // Check image
     auto check_image = CheckImages::getInstance().getPsfImage(m_instance);
     if (check_image) {
-      auto x = component_value_getters["X_IMAGE"](source, m_instance);
-      auto y = component_value_getters["Y_IMAGE"](source, m_instance);
+      // The centroid counts from the center of the first pixel, addImageToImage from its corner
+      auto x = component_value_getters["X_IMAGE"](source, m_instance) + 0.5;
+      auto y = component_value_getters["Y_IMAGE"](source, m_instance) + 0.5;
 
       ModelFitting::ImageTraits<ModelFitting::WriteableInterfaceTypePtr>::addImageToImage(
         check_image, psf, m_vpsf->getPixelSampling(), x, y);
-- 
2.43.0


From 3d0e48b9c8bc2eeaa49f9a78c86d2e3d815bf667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 72/80] fix: cleaning merged the sources in the order of their
 addresses, so that ids changed from run to run

---
 SEImplementation/src/lib/Deblending/Cleaning.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/SEImplementation/src/lib/Deblending/Cleaning.cpp b/SEImplementation/src/lib/Deblending/Cleaning.cpp
index 5d83b3f..0d70205 100644
--- a/SEImplementation/src/lib/Deblending/Cleaning.cpp
+++ b/SEImplementation/src/lib/Deblending/Cleaning.cpp
@@ -67,11 +67,13 @@ void Cleaning::deblend(SourceGroupInterface& group) const {
         merging_map[influential_source].push_back(it);
       }
 
-      for (auto merging_pair : merging_map) {
-        if (merging_pair.second.size() > 0) {
-          auto new_source = mergeSources(*merging_pair.first, merging_pair.second);
+      // In the order of the group, as the map is sorted by the address of the sources
+      for (auto parent : remaining_sources) {
+        auto merging_pair = merging_map.find(parent);
+        if (merging_pair != merging_map.end()) {
+          auto new_source = mergeSources(*parent, merging_pair->second);
           group.addSource(std::move(new_source));
-          group.removeSource(merging_pair.first);
+          group.removeSource(parent);
         }
       }
     } else if (remaining_sources.size() == 1) {
-- 
2.43.0


From 98cfcbb56d4745f13c5106dc864b79ebe7f5f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 73/80] fix: detection ids depended on how far deblending had
 got in another thread

---
 .../SEImplementation/Property/SourceId.h            | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/SEImplementation/Property/SourceId.h b/SEImplementation/SEImplementation/Property/SourceId.h
index ae5b323..5536730 100644
--- a/SEImplementation/SEImplementation/Property/SourceId.h
+++ b/SEImplementation/SEImplementation/Property/SourceId.h
@@ -26,6 +26,8 @@
 
 #include "SEFramework/Property/Property.h"
 #include <atomic>
+#include <cstdint>
+#include <limits>
 
 namespace SourceXtractor {
 
@@ -33,10 +35,12 @@ class SourceId : public Property {
 
 public:
 
+  /// Identifier of a source that is only a part of a detection
   explicit SourceId(unsigned int detection_id)
-      : m_source_id(getNewId()), m_detection_id(detection_id) {
+      : m_source_id(getNewPartId()), m_detection_id(detection_id) {
   }
 
+  /// Identifier of a new detection
   SourceId()
       : m_source_id(getNewId()), m_detection_id(m_source_id) {
   }
@@ -59,7 +63,12 @@ private:
     return s_id++;
   }
 
-
+  // The parts are not counted together with the detections: the numbers of the detections would otherwise depend on
+  // how far the deblending, which runs in a thread of its own, has advanced. They count down to be never the same.
+  static unsigned int getNewPartId() {
+    static std::atomic<uint32_t> s_part_id(std::numeric_limits<uint32_t>::max());
+    return s_part_id--;
+  }
 
 }; /* End of SourceId class */
 
-- 
2.43.0


From 5d65fec6fc6b11cd920a4536897cf9a855f2ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 74/80] fix: group ids depended on which measurement thread was
 first

---
 .../src/lib/Measurement/MultithreadedMeasurement.cpp          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp b/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
index 158bf22..93d03aa 100644
--- a/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
+++ b/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
@@ -25,6 +25,7 @@
 #include <ElementsKernel/Logging.h>
 #include <csignal>
 
+#include "SEImplementation/Plugin/GroupInfo/GroupInfo.h"
 #include "SEImplementation/Plugin/SourceIDs/SourceID.h"
 #include "SEImplementation/Measurement/MultithreadedMeasurement.h"
 
@@ -76,10 +77,11 @@ void MultithreadedMeasurement::synchronizeThreads() {
 }
 
 void MultithreadedMeasurement::receiveSource(std::unique_ptr<SourceGroupInterface> source_group) {
-  // Force computation of SourceID here, where the order is still deterministic
+  // Force computation of SourceID and GroupInfo here, where the order is still deterministic
   for (auto& source : *source_group) {
     source.getProperty<SourceID>();
   }
+  source_group->getProperty<GroupInfo>();
 
   // Put the new SourceGroup into the input queue
   auto order_number = m_group_counter;
-- 
2.43.0


From 2da9fdf41d5ee4c023f87dc5d78e8c34b566eb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 75/80] fix: the GSL engine differentiated with a vanishing
 step at parameter values next to zero, and left such parameters unfitted

---
 ModelFitting/src/lib/Engine/GSLEngine.cpp | 37 +++++++++++++++++++----
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/ModelFitting/src/lib/Engine/GSLEngine.cpp b/ModelFitting/src/lib/Engine/GSLEngine.cpp
index c096010..6c9bf57 100644
--- a/ModelFitting/src/lib/Engine/GSLEngine.cpp
+++ b/ModelFitting/src/lib/Engine/GSLEngine.cpp
@@ -119,7 +119,7 @@ LeastSquareSummary GSLEngine::solveProblem(ModelFitting::EngineParameterManager&
                                            ModelFitting::ResidualEstimator& residual_estimator) {
   // Create a tuple which keeps the references to the given manager and estimator
   // If we capture, we can not use the lambda for the function pointer
-  auto adata = std::tie(parameter_manager, residual_estimator);
+  auto adata = std::tie(parameter_manager, residual_estimator, m_delta);
 
   // Only type supported by GSL
   const gsl_multifit_nlinear_type *type = gsl_multifit_nlinear_trust;
@@ -137,10 +137,6 @@ LeastSquareSummary GSLEngine::solveProblem(ModelFitting::EngineParameterManager&
   params.scale = gsl_multifit_nlinear_scale_levenberg;
   // Others work too, but this one is faster
   params.solver = gsl_multifit_nlinear_solver_cholesky;
-  // This is the default, and requires half the operations than GSL_MULTIFIT_NLINEAR_CTRDIFF
-  params.fdtype = GSL_MULTIFIT_NLINEAR_FWDIFF;
-  // Passed via constructor
-  params.h_df = m_delta;
 
   // Allocate the workspace for the resolver. It may return null if there is no memory.
   gsl_multifit_nlinear_workspace *workspace = gsl_multifit_nlinear_alloc(
@@ -165,9 +161,38 @@ LeastSquareSummary GSLEngine::solveProblem(ModelFitting::EngineParameterManager&
     re.populateResiduals(GslVectorIterator{f});
     return GSL_SUCCESS;
   };
+
+  // Jacobian by forward differences. GSL own approximation uses a step relative to the value of the parameter, which
+  // vanishes for values next to zero (i.e. at the centre of a range), so as levmar does, keep a minimum step
+  auto jacobian = [](const gsl_vector *x, void *extra, gsl_matrix *J) -> int {
+    auto *extra_ptr = (decltype(adata) *) extra;
+    EngineParameterManager& pm = std::get<0>(*extra_ptr);
+    ResidualEstimator& re = std::get<1>(*extra_ptr);
+    double delta = std::get<2>(*extra_ptr);
+
+    std::vector<double> values(x->size), f0(J->size1), f1(J->size1);
+    for (size_t j = 0; j < x->size; ++j) {
+      values[j] = gsl_vector_get(x, j);
+    }
+
+    pm.updateEngineValues(values.begin());
+    re.populateResiduals(f0.begin());
+    for (size_t j = 0; j < x->size; ++j) {
+      double xj = values[j];
+      values[j] = xj + std::max(delta * std::abs(xj), delta);
+      double step = values[j] - xj;
+      pm.updateEngineValues(values.begin());
+      re.populateResiduals(f1.begin());
+      for (size_t i = 0; i < J->size1; ++i) {
+        gsl_matrix_set(J, i, j, (f1[i] - f0[i]) / step);
+      }
+      values[j] = xj;
+    }
+    return GSL_SUCCESS;
+  };
   gsl_multifit_nlinear_fdf fdf;
   fdf.f = function;
-  fdf.df = nullptr;
+  fdf.df = jacobian;
   fdf.fvv = nullptr;
   fdf.n = residual_estimator.numberOfResiduals();
   fdf.p = parameter_manager.numberOfParameters();
-- 
2.43.0


From 284e7b7cebd8c3bc13a6ad2a43b393180f1a7fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:14 +0000
Subject: [PATCH 76/80] fix: iterative model fitting asked for the corners of
 an empty rectangle when a source is outside of a measurement frame

---
 .../FlexibleModelFittingIterativeTask.cpp                | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
index 1e99d9e..fc86951 100644
--- a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
@@ -131,6 +131,11 @@ PixelRectangle FlexibleModelFittingIterativeTask::getUnclippedFittingRect(Source
 
 PixelRectangle FlexibleModelFittingIterativeTask::clipFittingRect(PixelRectangle fitting_rect,
     SourceInterface& source, int frame_index) const {
+  // the source may be outside of the frame
+  if (fitting_rect.getWidth() <= 0 || fitting_rect.getHeight() <= 0) {
+    return PixelRectangle();
+  }
+
   const auto& frame_info = source.getProperty<MeasurementFrameInfo>(frame_index);
 
   auto min = fitting_rect.getTopLeft();
@@ -142,6 +147,10 @@ PixelRectangle FlexibleModelFittingIterativeTask::clipFittingRect(PixelRectangle
   max.m_x = std::min(max.m_x, frame_info.getWidth() - 1);
   max.m_y = std::min(max.m_y, frame_info.getHeight() - 1);
 
+  if (min.m_x > max.m_x || min.m_y > max.m_y) {
+    return PixelRectangle();
+  }
+
   return PixelRectangle(min, max);
 }
 
-- 
2.43.0


From 52b576535d9cbbdc2d08456316c765cac8e510d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:14 +0000
Subject: [PATCH 77/80] fix: iterative model fitting dropped the flags of
 sources it could not fit, and painted their undefined model into the check
 images

---
 .../FlexibleModelFittingIterativeTask.cpp            | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
index fc86951..5edbc2f 100644
--- a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
@@ -459,9 +459,7 @@ void FlexibleModelFittingIterativeTask::computeProperties(SourceGroupInterface&
     auto& source_state = fitting_state.source_states.at(index);
 
     for (auto parameter : m_parameters) {
-      auto free_parameter = std::dynamic_pointer_cast<FlexibleModelFittingFreeParameter>(parameter);
-
-      if (free_parameter != nullptr && !source_state.parameters_fitted[parameter->getId()]) {
+      if (!source_state.parameters_fitted[parameter->getId()]) {
         source_state.parameters_values[parameter->getId()] = std::numeric_limits<double>::quiet_NaN();
         source_state.parameters_sigmas[parameter->getId()] = std::numeric_limits<double>::quiet_NaN();
       }
@@ -739,6 +737,7 @@ void FlexibleModelFittingIterativeTask::fitSource(SourceGroupInterface& group, S
 
   // Do not run the model fitting for the flags above
   if (flags != Flags::NONE) {
+    state.source_states[index].flags = flags;
     return;
   }
 
@@ -804,7 +803,14 @@ void FlexibleModelFittingIterativeTask::updateCheckImages(SourceGroupInterface&
     index++;
   }
 
+  index = 0;
   for (auto& src : group) {
+    // there is no model for a source that could not be fitted
+    auto flags = state.source_states[index++].flags;
+    if ((flags & (Flags::OUTSIDE | Flags::INSUFFICIENT_DATA)) != Flags::NONE) {
+      continue;
+    }
+
     for (auto frame : m_frames) {
       int frame_index = frame->getFrameNb();
 
-- 
2.43.0


From 57c4ca09d4cb715594605d274cabb87e8aa9e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:15 +0000
Subject: [PATCH 78/80] fix: without detection image the program failed unless
 the first measurement image was the first object made in the Python script

---
 .../ReferenceCoordinatesTaskFactory.cpp                   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/SEImplementation/src/lib/Plugin/ReferenceCoordinates/ReferenceCoordinatesTaskFactory.cpp b/SEImplementation/src/lib/Plugin/ReferenceCoordinates/ReferenceCoordinatesTaskFactory.cpp
index 1d54be0..12aa204 100644
--- a/SEImplementation/src/lib/Plugin/ReferenceCoordinates/ReferenceCoordinatesTaskFactory.cpp
+++ b/SEImplementation/src/lib/Plugin/ReferenceCoordinates/ReferenceCoordinatesTaskFactory.cpp
@@ -17,6 +17,7 @@
 
 
 #include "SEImplementation/Configuration/DetectionImageConfig.h"
+#include "SEImplementation/Configuration/MeasurementImageConfig.h"
 
 #include "SEImplementation/Plugin/ReferenceCoordinates/ReferenceCoordinates.h"
 #include "SEImplementation/Plugin/ReferenceCoordinates/ReferenceCoordinatesTask.h"
@@ -28,12 +29,19 @@ namespace SourceXtractor {
 
 void ReferenceCoordinatesTaskFactory::reportConfigDependencies(Euclid::Configuration::ConfigManager& manager) const {
   manager.registerConfiguration<DetectionImageConfig>();
+  manager.registerConfiguration<MeasurementImageConfig>();
 }
 
 void ReferenceCoordinatesTaskFactory::configure(Euclid::Configuration::ConfigManager& manager) {
   auto& detection_image_config = manager.getConfiguration<DetectionImageConfig>();
   if (detection_image_config.isReferenceImage()) {
     m_coordinate_system = detection_image_config.getCoordinateSystem();
+  } else {
+    // Without detection image, the first measurement image is the reference: its id may be any number
+    auto& image_infos = manager.getConfiguration<MeasurementImageConfig>().getImageInfos();
+    if (!image_infos.empty()) {
+      m_coordinate_system = image_infos.front().m_coordinate_system;
+    }
   }
 }
 
-- 
2.43.0


From 452a2e01599a4a6efc95a6bc687deea32ab0b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:15 +0000
Subject: [PATCH 79/80] fix: implicit columns of an assoc configuration file
 were off by one

---
 SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
index e0d259d..f543761 100644
--- a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
+++ b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
@@ -449,7 +449,7 @@ std::map<std::string, unsigned int>  AssocModeConfig::parseConfigFile(const std:
     }
 
     std::string line;
-    int current_column_nb = 1; // column indices start at 1
+    int current_column_nb = 0; // 0-based index of the next implicit column
     while (std::getline(config_file, line)) {
       boost::trim(line);
       // Skip lines starting with '#'
-- 
2.43.0


From fcf791437b661e44ac7fa01ed0e884de05c8929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:15 +0000
Subject: [PATCH 80/80] fix: assoc mode FIRST did not take the first match of a
 large catalog

---
 .../SEImplementation/Plugin/AssocMode/AssocModeConfig.h     | 1 +
 .../src/lib/Plugin/AssocMode/AssocModeConfig.cpp            | 2 +-
 SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp | 6 +++++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeConfig.h b/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeConfig.h
index 9cb2469..efedb3a 100644
--- a/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeConfig.h
+++ b/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeConfig.h
@@ -65,6 +65,7 @@ public:
     double source_pixel_height;
 
     unsigned int group_id;
+    size_t row = 0; // position in the catalog file
   };
 
   explicit AssocModeConfig(long manager_id);
diff --git a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
index f543761..4511c33 100644
--- a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
+++ b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
@@ -398,7 +398,7 @@ std::vector<AssocModeConfig::CatalogEntry> AssocModeConfig::readTable(
         world_coord = coordinate_system->imageToWorld(coord);
       }
     }
-    catalog.emplace_back(CatalogEntry { coord, world_coord, 1.0, {}, 1.0, 1.0, 0 });
+    catalog.emplace_back(CatalogEntry { coord, world_coord, 1.0, {}, 1.0, 1.0, 0, catalog.size() });
     if (columns.size() == 3 && columns.at(2) >= 0) {
       catalog.back().weight = boost::apply_visitor(CastVisitor<double>{}, row[columns.at(2)]);
     }
diff --git a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
index 2be8afb..5174a96 100644
--- a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
@@ -50,7 +50,11 @@ AssocModeConfig::CatalogEntry getAssocEntryUnknownImpl(const std::vector<AssocMo
 }
 
 AssocModeConfig::CatalogEntry getAssocEntryFirstImpl(const std::vector<AssocModeConfig::CatalogEntry>& entries) {
-  return entries.front();
+  // The entries come in the order of the KdTree
+  return *std::min_element(entries.begin(), entries.end(),
+      [](const AssocModeConfig::CatalogEntry &a, const AssocModeConfig::CatalogEntry &b) -> bool {
+          return a.row < b.row;
+      });
 }
 
 AssocModeConfig::CatalogEntry getAssocEntryNearestImpl(const std::vector<AssocModeConfig::CatalogEntry>& entries,
-- 
2.43.0

