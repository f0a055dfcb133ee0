From 6af9202ac7fc7714c7e490e36d529b3ffe2f819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:15 +0000
Subject: [PATCH 01/21] fix: round container capacities up with integer
 arithmetic

Rounding through float gives less than the requested capacity beyond 2^24
elements, so that elements are written after the end of the buffer.
---
 include/reactphysics3d/containers/Array.h | 2 +-
 include/reactphysics3d/containers/Deque.h | 2 +-
 include/reactphysics3d/containers/Stack.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/reactphysics3d/containers/Array.h b/include/reactphysics3d/containers/Array.h
index b7f0645..ee4c74a 100755
--- a/include/reactphysics3d/containers/Array.h
+++ b/include/reactphysics3d/containers/Array.h
@@ -252,7 +252,7 @@ class Array {
             if (capacity <= mCapacity) return;
 
             // Make sure capacity is an integral multiple of alignment
-            capacity = std::ceil(capacity / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+            capacity = ((capacity + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT;
 
             // Allocate memory for the new array
             void* newMemory = mAllocator.allocate(capacity * sizeof(T));
diff --git a/include/reactphysics3d/containers/Deque.h b/include/reactphysics3d/containers/Deque.h
index 2a7977b..27da70a 100644
--- a/include/reactphysics3d/containers/Deque.h
+++ b/include/reactphysics3d/containers/Deque.h
@@ -86,7 +86,7 @@ class Deque {
             if (capacity <= mCapacity) return;
 
             // Make sure capacity is an integral multiple of alignment
-            capacity = std::ceil(capacity / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+            capacity = ((capacity + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT;
 
             // Allocate memory for the new array
             void* newMemory = mAllocator.allocate(capacity * sizeof(T));
diff --git a/include/reactphysics3d/containers/Stack.h b/include/reactphysics3d/containers/Stack.h
index cdbe26f..4fe93b2 100644
--- a/include/reactphysics3d/containers/Stack.h
+++ b/include/reactphysics3d/containers/Stack.h
@@ -62,7 +62,7 @@ class Stack {
         void allocate(uint64 capacity) {
 
             // Make sure capacity is an integral multiple of alignment
-            capacity = std::ceil(capacity / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+            capacity = ((capacity + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT;
 
             T* newArray = static_cast<T*>(mAllocator.allocate(capacity * sizeof(T)));
             assert(newArray != nullptr);
-- 
2.43.0


From b462aee0e8c29d87ba4352504659d3a0147082a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:32 +0000
Subject: [PATCH 02/21] fix: copy of a deque keeps its items

reserve() moves the index of the first item to the middle of the buffer while the
copies are written at the index of the source (copy constructor), or from the
middle of the buffer on, possibly past its end (assignment).
---
 include/reactphysics3d/containers/Deque.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/reactphysics3d/containers/Deque.h b/include/reactphysics3d/containers/Deque.h
index 27da70a..fa102fd 100644
--- a/include/reactphysics3d/containers/Deque.h
+++ b/include/reactphysics3d/containers/Deque.h
@@ -278,6 +278,9 @@ class Deque {
             // Allocate memory
             reserve(deque.mCapacity);
 
+            // Place the items at the same location as in the other deque (reserve() has centered the first item)
+            mFirstItemIndex = deque.mFirstItemIndex;
+
             if (deque.mSize > 0) {
 
                 // Add the items into the deque
@@ -463,6 +466,9 @@ class Deque {
 
                 reserve(deque.mCapacity);
 
+                // Place the items at the same location as in the other deque (its capacity is not larger)
+                mFirstItemIndex = deque.mFirstItemIndex;
+
                 if (deque.mSize > 0) {
 
                     // Add the items into the deque
-- 
2.43.0


From 144b8dda747541863abd3935b97bc7326aec1cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:32 +0000
Subject: [PATCH 03/21] fix: a map or set cleared with release of its memory
 can be used again

clear(true) kept the index of a free entry of the released array.
---
 include/reactphysics3d/containers/Map.h | 1 +
 include/reactphysics3d/containers/Set.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/reactphysics3d/containers/Map.h b/include/reactphysics3d/containers/Map.h
index 4aaee4b..e21a918 100755
--- a/include/reactphysics3d/containers/Map.h
+++ b/include/reactphysics3d/containers/Map.h
@@ -520,6 +520,7 @@ class Map {
 
                 mNbAllocatedEntries = 0;
                 mHashSize = 0;
+                mFreeIndex = INVALID_INDEX;
             }
 
             mNbEntries = 0;
diff --git a/include/reactphysics3d/containers/Set.h b/include/reactphysics3d/containers/Set.h
index ea894ab..aae3134 100755
--- a/include/reactphysics3d/containers/Set.h
+++ b/include/reactphysics3d/containers/Set.h
@@ -519,6 +519,7 @@ class Set {
 
                 mNbAllocatedEntries = 0;
                 mHashSize = 0;
+                mFreeIndex = INVALID_INDEX;
             }
 
             mNbEntries = 0;
-- 
2.43.0


From 0d283dd276a1f0b04a952e9e85e369cd9cf88ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 04/21] fix: a stack destroys its previous items when it grows

The items copied into the larger array were never destroyed in the released one.
---
 include/reactphysics3d/containers/Stack.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/reactphysics3d/containers/Stack.h b/include/reactphysics3d/containers/Stack.h
index 4fe93b2..36a6be7 100644
--- a/include/reactphysics3d/containers/Stack.h
+++ b/include/reactphysics3d/containers/Stack.h
@@ -74,6 +74,11 @@ class Stack {
 
                     // Copy the previous items in the new array
                     std::uninitialized_copy(mArray, mArray + mNbElements, newArray);
+
+                    // Destruct the previous items
+                    for (uint64 i = 0; i < mNbElements; i++) {
+                        mArray[i].~T();
+                    }
                 }
 
                 // Release memory of the previous array
-- 
2.43.0


From a370e85ccdef358156a7a11e42c7b7236997f615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 05/21] fix: single frame allocator gives back a block that
 starts right behind its buffer

---
 src/memory/SingleFrameAllocator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/SingleFrameAllocator.cpp b/src/memory/SingleFrameAllocator.cpp
index 00ff8e6..e733e7c 100644
--- a/src/memory/SingleFrameAllocator.cpp
+++ b/src/memory/SingleFrameAllocator.cpp
@@ -98,7 +98,7 @@ void SingleFrameAllocator::release(void* pointer, size_t size) {
 
     // If allocated memory is not within the single frame allocation range
     char* p = static_cast<char*>(pointer);
-    if (p < mMemoryBufferStart || p > mMemoryBufferStart + mTotalSizeBytes) {
+    if (p < mMemoryBufferStart || p >= mMemoryBufferStart + mTotalSizeBytes) {
 
         // Use default deallocation
         mBaseAllocator.release(pointer, size);
-- 
2.43.0


From 2e08fc56cb4910dbbfffd904d8b074e829ea076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 06/21] fix: support point of a convex mesh takes its scale
 into account

---
 src/collision/shapes/ConvexMeshShape.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/collision/shapes/ConvexMeshShape.cpp b/src/collision/shapes/ConvexMeshShape.cpp
index ee6c33e..240ba75 100644
--- a/src/collision/shapes/ConvexMeshShape.cpp
+++ b/src/collision/shapes/ConvexMeshShape.cpp
@@ -82,11 +82,14 @@ Vector3 ConvexMeshShape::getLocalSupportPointWithoutMargin(const Vector3& direct
     decimal maxDotProduct = DECIMAL_SMALLEST;
     uint32 indexMaxDotProduct = 0;
 
+    // The dot product of the direction with a scaled vertex is the dot product of the scaled direction with the vertex
+    const Vector3 scaledDirection = direction * mScale;
+
     // For each vertex of the mesh
     for (uint32 i=0; i<mConvexMesh->getNbVertices(); i++) {
 
         // Compute the dot product of the current vertex
-        decimal dotProduct = direction.dot(mConvexMesh->getVertex(i));
+        decimal dotProduct = scaledDirection.dot(mConvexMesh->getVertex(i));
 
         // If the current dot product is larger than the maximum one
         if (dotProduct > maxDotProduct) {
-- 
2.43.0


From be9b05276e4bb930a810e18a1295e5a299adb4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 07/21] fix: no assertion on the support point of a convex mesh
 that does not contain its origin

---
 src/collision/shapes/ConvexMeshShape.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/collision/shapes/ConvexMeshShape.cpp b/src/collision/shapes/ConvexMeshShape.cpp
index 240ba75..fc5c354 100644
--- a/src/collision/shapes/ConvexMeshShape.cpp
+++ b/src/collision/shapes/ConvexMeshShape.cpp
@@ -98,8 +98,6 @@ Vector3 ConvexMeshShape::getLocalSupportPointWithoutMargin(const Vector3& direct
         }
     }
 
-    assert(maxDotProduct >= decimal(0.0));
-
     // Return the vertex with the largest dot product in the support direction
     return mConvexMesh->getVertex(indexMaxDotProduct) * mScale;
 }
-- 
2.43.0


From 7973f2841fb48c96d6a5b33c4444eab556d55a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 08/21] fix: ray cast and point test of a convex mesh take its
 scale into account

---
 src/collision/shapes/ConvexMeshShape.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision/shapes/ConvexMeshShape.cpp b/src/collision/shapes/ConvexMeshShape.cpp
index fc5c354..8c51cce 100644
--- a/src/collision/shapes/ConvexMeshShape.cpp
+++ b/src/collision/shapes/ConvexMeshShape.cpp
@@ -123,7 +123,7 @@ bool ConvexMeshShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider
         const HalfEdgeStructure::Face& face = halfEdgeStructure.getFace(f);
         const Vector3& faceNormal = getFaceNormal(f);
         const HalfEdgeStructure::Vertex& faceVertex = halfEdgeStructure.getVertex(face.faceVertices[0]);
-        const Vector3& facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex);
+        const Vector3 facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex) * mScale;
         decimal denom = faceNormal.dot(direction);
         decimal planeD = faceNormal.dot(facePoint);
         decimal dist = planeD -  faceNormal.dot(ray.point1);
@@ -193,7 +193,7 @@ bool ConvexMeshShape::testPointInside(const Vector3& localPoint, Collider* /*col
         const HalfEdgeStructure::Face& face = halfEdgeStructure.getFace(f);
         const Vector3& faceNormal = getFaceNormal(f);
         const HalfEdgeStructure::Vertex& faceVertex = halfEdgeStructure.getVertex(face.faceVertices[0]);
-        const Vector3& facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex);
+        const Vector3 facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex) * mScale;
 
         // If the point is out of the face plane, it is outside of the convex mesh
         if (computePointToPlaneDistance(localPoint, faceNormal, facePoint) > decimal(0.0)) return false;
-- 
2.43.0


From 0f1953ff28bbe8edaf1165794665268a8b68981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 09/21] fix: a short ray is not taken for a ray parallel to the
 axis of the capsule

---
 src/collision/shapes/CapsuleShape.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/collision/shapes/CapsuleShape.cpp b/src/collision/shapes/CapsuleShape.cpp
index c774ca3..ba34859 100644
--- a/src/collision/shapes/CapsuleShape.cpp
+++ b/src/collision/shapes/CapsuleShape.cpp
@@ -98,7 +98,8 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
 
     const Vector3 n = ray.point2 - ray.point1;
 
-    const decimal epsilon = decimal(0.01);
+    // Tolerance of the parallel test, relative to the lengths of the ray and of the capsule
+    const decimal epsilon = decimal(10.0) * MACHINE_EPSILON;
     Vector3 p(decimal(0), -mHalfHeight, decimal(0));
     Vector3 q(decimal(0), mHalfHeight, decimal(0));
     Vector3 d = q - p;
@@ -123,7 +124,7 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
     decimal c = dDotD * k - mDotD * mDotD;
 
     // If the ray is parallel to the capsule axis
-    if (std::abs(a) < epsilon) {
+    if (a <= epsilon * dDotD * nDotN) {
 
         // If the origin is outside the surface of the capusle's cylinder, we return no hit
         if (c > decimal(0.0)) return false;
-- 
2.43.0


From 4a16413dded5cf304292ddd615bb34b38a8938b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 10/21] fix: a ray through the extension of an edge does not
 hit a triangle tested on both sides

---
 src/collision/shapes/TriangleShape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/shapes/TriangleShape.cpp b/src/collision/shapes/TriangleShape.cpp
index 349ef87..448e377 100644
--- a/src/collision/shapes/TriangleShape.cpp
+++ b/src/collision/shapes/TriangleShape.cpp
@@ -179,7 +179,7 @@ bool TriangleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider*
         if (w > decimal(0.0)) return false;
     }
     else if (mRaycastTestType == TriangleRaycastSide::FRONT_AND_BACK) {
-        if (!sameSign(u, w)) return false;
+        if (!sameSign(u, w) || !sameSign(v, w)) return false;
     }
 
     // If the line PQ is in the triangle plane (case where u=v=w=0)
-- 
2.43.0


From f523ea5ecb2e09c7a82bed3743494ff0df0f5cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 11/21] fix: a body that is activated again is awake

---
 src/body/RigidBody.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 7018701..c36cf28 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -1187,7 +1187,13 @@ void RigidBody::setIsActive(bool isActive) {
     // If the state does not change
     if (mWorld.mBodyComponents.getIsActive(mEntity) == isActive) return;
 
-    setIsSleeping(!isActive);
-
-    Body::setIsActive(isActive);
+    // A body can only be awaken while it is active
+    if (isActive) {
+        Body::setIsActive(true);
+        setIsSleeping(false);
+    }
+    else {
+        setIsSleeping(true);
+        Body::setIsActive(false);
+    }
 }
-- 
2.43.0


From 4978bf6959b7a4d55a6ca84084333f549653d0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 12/21] fix: changing the type of a body that is not active
 does not put it into the simulation

---
 src/body/RigidBody.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index c36cf28..4f710ad 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -108,8 +108,14 @@ void RigidBody::setType(BodyType type) {
         mWorld.mRigidBodyComponents.setInverseInertiaTensorLocal(mEntity, inverseInertiaTensorLocal);
     }
 
-    // Disable/Enable the body if necessary (components of static bodies are disabled)
-    mWorld.setBodyDisabled(mEntity, type == BodyType::STATIC);
+    // A body that is not active is sleeping until it is activated
+    const bool isActive = mWorld.mBodyComponents.getIsActive(mEntity);
+    if (!isActive && type != BodyType::STATIC) {
+        mWorld.mRigidBodyComponents.setIsSleeping(mEntity, true);
+    }
+
+    // Disable/Enable the body if necessary (components of static bodies and of bodies that are not active are disabled)
+    mWorld.setBodyDisabled(mEntity, type == BodyType::STATIC || !isActive);
 
     // Awake the body
     setIsSleeping(false);
-- 
2.43.0


From 1d645a28ff347e8027aef30d2edaf0612d945465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:23 +0000
Subject: [PATCH 13/21] fix: warm starting applies the twist friction impulse
 once

---
 src/systems/ContactSolverSystem.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/systems/ContactSolverSystem.cpp b/src/systems/ContactSolverSystem.cpp
index a7ab187..797a984 100644
--- a/src/systems/ContactSolverSystem.cpp
+++ b/src/systems/ContactSolverSystem.cpp
@@ -458,12 +458,6 @@ void ContactSolverSystem::warmStart() {
 
             // Update the velocities of the body 2 by applying the impulse P
             mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody2Index] += mContactConstraints[c].angularLockAxisFactorBody2 * (mContactConstraints[c].inverseInertiaTensorBody2 * angularImpulseBody2);
-
-            // Update the velocities of the body 1 by applying the impulse P
-            mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody1Index] -= mContactConstraints[c].angularLockAxisFactorBody1 * (mContactConstraints[c].inverseInertiaTensorBody1 * angularImpulseBody2);
-
-            // Update the velocities of the body 1 by applying the impulse P
-            mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody2Index] += mContactConstraints[c].angularLockAxisFactorBody2 * (mContactConstraints[c].inverseInertiaTensorBody2 * angularImpulseBody2);
         }
         else {  // If it is a new contact manifold
 
-- 
2.43.0


From 839ab1e26e329af7d6dce5f2ed91f9b052ffcb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:45 +0000
Subject: [PATCH 14/21] fix: touching point on the second sphere when both
 centres coincide

---
 .../narrowphase/SphereVsSphereAlgorithm.cpp   | 226 +++++++++---------
 1 file changed, 113 insertions(+), 113 deletions(-)

diff --git a/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp b/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp
index 3a8a6c9..41894c7 100755
--- a/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp
+++ b/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp
@@ -1,113 +1,113 @@
-/********************************************************************************
-* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
-* Copyright (c) 2010-2024 Daniel Chappuis                                       *
-*********************************************************************************
-*                                                                               *
-* This software is provided 'as-is', without any express or implied warranty.   *
-* In no event will the authors be held liable for any damages arising from the  *
-* use of this software.                                                         *
-*                                                                               *
-* Permission is granted to anyone to use this software for any purpose,         *
-* including commercial applications, and to alter it and redistribute it        *
-* freely, subject to the following restrictions:                                *
-*                                                                               *
-* 1. The origin of this software must not be misrepresented; you must not claim *
-*    that you wrote the original software. If you use this software in a        *
-*    product, an acknowledgment in the product documentation would be           *
-*    appreciated but is not required.                                           *
-*                                                                               *
-* 2. Altered source versions must be plainly marked as such, and must not be    *
-*    misrepresented as being the original software.                             *
-*                                                                               *
-* 3. This notice may not be removed or altered from any source distribution.    *
-*                                                                               *
-********************************************************************************/
-
-// Libraries
-#include <reactphysics3d/collision/narrowphase/SphereVsSphereAlgorithm.h>
-#include <reactphysics3d/collision/shapes/SphereShape.h>
-#include <reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h>
-
-// We want to use the ReactPhysics3D namespace
-using namespace reactphysics3d;  
-
-bool SphereVsSphereAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchStartIndex, uint32 batchNbItems, MemoryAllocator& /*memoryAllocator*/) {
-
-    bool isCollisionFound = false;
-
-    // For each item in the batch
-    for (uint32 batchIndex = batchStartIndex; batchIndex < batchStartIndex + batchNbItems; batchIndex++) {
-
-        assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].nbContactPoints == 0);
-        assert(!narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding);
-
-        // Get the local-space to world-space transforms
-        const Transform& transform1 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform;
-        const Transform& transform2 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform;
-
-        // Compute the distance between the centers
-        Vector3 vectorBetweenCenters = transform2.getPosition() - transform1.getPosition();
-        decimal squaredDistanceBetweenCenters = vectorBetweenCenters.lengthSquare();
-
-        const SphereShape* sphereShape1 = static_cast<SphereShape*>(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1);
-        const SphereShape* sphereShape2 = static_cast<SphereShape*>(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2);
-
-        const decimal sphere1Radius = sphereShape1->getRadius();
-        const decimal sphere2Radius = sphereShape2->getRadius();
-
-        // Compute the sum of the radius
-        const decimal sumRadiuses = sphere1Radius + sphere2Radius;
-
-        // Compute the product of the sum of the radius
-        const decimal sumRadiusesProducts = sumRadiuses * sumRadiuses;
-
-        // If the sphere collision shapes intersect
-        if (squaredDistanceBetweenCenters < sumRadiusesProducts) {
-
-            const decimal penetrationDepth = sumRadiuses - std::sqrt(squaredDistanceBetweenCenters);
-
-            // Make sure the penetration depth is not zero (even if the previous condition test was true the penetration depth can still be
-            // zero because of precision issue of the computation at the previous line)
-            if (penetrationDepth > 0) {
-
-                // If we need to report contacts
-                if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
-
-                    const Transform transform1Inverse = transform1.getInverse();
-                    const Transform transform2Inverse = transform2.getInverse();
-
-                    Vector3 intersectionOnBody1;
-                    Vector3 intersectionOnBody2;
-                    Vector3 normal;
-
-                    // If the two sphere centers are not at the same position
-                    if (squaredDistanceBetweenCenters > MACHINE_EPSILON) {
-
-                        const Vector3 centerSphere2InBody1LocalSpace = transform1Inverse * transform2.getPosition();
-                        const Vector3 centerSphere1InBody2LocalSpace = transform2Inverse * transform1.getPosition();
-
-                        intersectionOnBody1 = sphere1Radius * centerSphere2InBody1LocalSpace.getUnit();
-                        intersectionOnBody2 = sphere2Radius * centerSphere1InBody2LocalSpace.getUnit();
-                        normal = vectorBetweenCenters.getUnit();
-                    }
-                    else {    // If the sphere centers are at the same position (degenerate case)
-
-                        // Take any contact normal direction
-                        normal.setAllValues(0, 1, 0);
-
-                        intersectionOnBody1 = sphere1Radius * (transform1Inverse.getOrientation() * normal);
-                        intersectionOnBody2 = sphere2Radius * (transform2Inverse.getOrientation() * normal);
-                    }
-
-                    // Create the contact info object
-                    narrowPhaseInfoBatch.addContactPoint(batchIndex, normal, penetrationDepth, intersectionOnBody1, intersectionOnBody2);
-                }
-
-                narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding = true;
-                isCollisionFound = true;
-            }
-        }
-    }
-
-    return isCollisionFound;
-}
+/********************************************************************************
+* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
+* Copyright (c) 2010-2024 Daniel Chappuis                                       *
+*********************************************************************************
+*                                                                               *
+* This software is provided 'as-is', without any express or implied warranty.   *
+* In no event will the authors be held liable for any damages arising from the  *
+* use of this software.                                                         *
+*                                                                               *
+* Permission is granted to anyone to use this software for any purpose,         *
+* including commercial applications, and to alter it and redistribute it        *
+* freely, subject to the following restrictions:                                *
+*                                                                               *
+* 1. The origin of this software must not be misrepresented; you must not claim *
+*    that you wrote the original software. If you use this software in a        *
+*    product, an acknowledgment in the product documentation would be           *
+*    appreciated but is not required.                                           *
+*                                                                               *
+* 2. Altered source versions must be plainly marked as such, and must not be    *
+*    misrepresented as being the original software.                             *
+*                                                                               *
+* 3. This notice may not be removed or altered from any source distribution.    *
+*                                                                               *
+********************************************************************************/
+
+// Libraries
+#include <reactphysics3d/collision/narrowphase/SphereVsSphereAlgorithm.h>
+#include <reactphysics3d/collision/shapes/SphereShape.h>
+#include <reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h>
+
+// We want to use the ReactPhysics3D namespace
+using namespace reactphysics3d;  
+
+bool SphereVsSphereAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchStartIndex, uint32 batchNbItems, MemoryAllocator& /*memoryAllocator*/) {
+
+    bool isCollisionFound = false;
+
+    // For each item in the batch
+    for (uint32 batchIndex = batchStartIndex; batchIndex < batchStartIndex + batchNbItems; batchIndex++) {
+
+        assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].nbContactPoints == 0);
+        assert(!narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding);
+
+        // Get the local-space to world-space transforms
+        const Transform& transform1 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform;
+        const Transform& transform2 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform;
+
+        // Compute the distance between the centers
+        Vector3 vectorBetweenCenters = transform2.getPosition() - transform1.getPosition();
+        decimal squaredDistanceBetweenCenters = vectorBetweenCenters.lengthSquare();
+
+        const SphereShape* sphereShape1 = static_cast<SphereShape*>(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1);
+        const SphereShape* sphereShape2 = static_cast<SphereShape*>(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2);
+
+        const decimal sphere1Radius = sphereShape1->getRadius();
+        const decimal sphere2Radius = sphereShape2->getRadius();
+
+        // Compute the sum of the radius
+        const decimal sumRadiuses = sphere1Radius + sphere2Radius;
+
+        // Compute the product of the sum of the radius
+        const decimal sumRadiusesProducts = sumRadiuses * sumRadiuses;
+
+        // If the sphere collision shapes intersect
+        if (squaredDistanceBetweenCenters < sumRadiusesProducts) {
+
+            const decimal penetrationDepth = sumRadiuses - std::sqrt(squaredDistanceBetweenCenters);
+
+            // Make sure the penetration depth is not zero (even if the previous condition test was true the penetration depth can still be
+            // zero because of precision issue of the computation at the previous line)
+            if (penetrationDepth > 0) {
+
+                // If we need to report contacts
+                if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
+
+                    const Transform transform1Inverse = transform1.getInverse();
+                    const Transform transform2Inverse = transform2.getInverse();
+
+                    Vector3 intersectionOnBody1;
+                    Vector3 intersectionOnBody2;
+                    Vector3 normal;
+
+                    // If the two sphere centers are not at the same position
+                    if (squaredDistanceBetweenCenters > MACHINE_EPSILON) {
+
+                        const Vector3 centerSphere2InBody1LocalSpace = transform1Inverse * transform2.getPosition();
+                        const Vector3 centerSphere1InBody2LocalSpace = transform2Inverse * transform1.getPosition();
+
+                        intersectionOnBody1 = sphere1Radius * centerSphere2InBody1LocalSpace.getUnit();
+                        intersectionOnBody2 = sphere2Radius * centerSphere1InBody2LocalSpace.getUnit();
+                        normal = vectorBetweenCenters.getUnit();
+                    }
+                    else {    // If the sphere centers are at the same position (degenerate case)
+
+                        // Take any contact normal direction
+                        normal.setAllValues(0, 1, 0);
+
+                        intersectionOnBody1 = sphere1Radius * (transform1Inverse.getOrientation() * normal);
+                        intersectionOnBody2 = -sphere2Radius * (transform2Inverse.getOrientation() * normal);
+                    }
+
+                    // Create the contact info object
+                    narrowPhaseInfoBatch.addContactPoint(batchIndex, normal, penetrationDepth, intersectionOnBody1, intersectionOnBody2);
+                }
+
+                narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding = true;
+                isCollisionFound = true;
+            }
+        }
+    }
+
+    return isCollisionFound;
+}
-- 
2.43.0


From 20cc103ca65a2568bfcf4d7145a5211447d5383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:45 +0000
Subject: [PATCH 15/21] fix: contact normal when a sphere centre lies on the
 segment of a capsule that is the first shape

---
 .../narrowphase/SphereVsCapsuleAlgorithm.cpp  | 305 +++++++++---------
 1 file changed, 153 insertions(+), 152 deletions(-)

diff --git a/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp b/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
index 5f90af9..f885b99 100755
--- a/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
+++ b/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
@@ -1,152 +1,153 @@
-/********************************************************************************
-* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
-* Copyright (c) 2010-2024 Daniel Chappuis                                       *
-*********************************************************************************
-*                                                                               *
-* This software is provided 'as-is', without any express or implied warranty.   *
-* In no event will the authors be held liable for any damages arising from the  *
-* use of this software.                                                         *
-*                                                                               *
-* Permission is granted to anyone to use this software for any purpose,         *
-* including commercial applications, and to alter it and redistribute it        *
-* freely, subject to the following restrictions:                                *
-*                                                                               *
-* 1. The origin of this software must not be misrepresented; you must not claim *
-*    that you wrote the original software. If you use this software in a        *
-*    product, an acknowledgment in the product documentation would be           *
-*    appreciated but is not required.                                           *
-*                                                                               *
-* 2. Altered source versions must be plainly marked as such, and must not be    *
-*    misrepresented as being the original software.                             *
-*                                                                               *
-* 3. This notice may not be removed or altered from any source distribution.    *
-*                                                                               *
-********************************************************************************/
-
-// Libraries
-#include <reactphysics3d/collision/narrowphase/SphereVsCapsuleAlgorithm.h>
-#include <reactphysics3d/collision/shapes/SphereShape.h>
-#include <reactphysics3d/collision/shapes/CapsuleShape.h>
-#include <reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h>
-
-// We want to use the ReactPhysics3D namespace
-using namespace reactphysics3d;  
-
-// Compute the narrow-phase collision detection between a sphere and a capsule
-// This technique is based on the "Robust Contact Creation for Physics Simulations" presentation
-// by Dirk Gregorius.
-bool SphereVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchStartIndex, uint32 batchNbItems, MemoryAllocator& /*memoryAllocator*/) {
-
-    bool isCollisionFound = false;
-
-    for (uint32 batchIndex = batchStartIndex; batchIndex < batchStartIndex + batchNbItems; batchIndex++) {
-
-        assert(!narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding);
-        assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].nbContactPoints == 0);
-
-        const bool isSphereShape1 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1->getType() == CollisionShapeType::SPHERE;
-
-        const SphereShape* sphereShape = static_cast<SphereShape*>(isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1 : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2);
-        const CapsuleShape* capsuleShape = static_cast<CapsuleShape*>(isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2 : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1);
-
-        const decimal capsuleHeight = capsuleShape->getHeight();
-        const decimal sphereRadius = sphereShape->getRadius();
-        const decimal capsuleRadius = capsuleShape->getRadius();
-
-        // Get the transform from sphere local-space to capsule local-space
-        const Transform& sphereToWorldTransform = isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform;
-        const Transform& capsuleToWorldTransform = isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform;
-        const Transform worldToCapsuleTransform = capsuleToWorldTransform.getInverse();
-        const Transform sphereToCapsuleSpaceTransform = worldToCapsuleTransform * sphereToWorldTransform;
-
-        // Transform the center of the sphere into the local-space of the capsule shape
-        const Vector3 sphereCenter = sphereToCapsuleSpaceTransform.getPosition();
-
-        // Compute the end-points of the inner segment of the capsule
-        const decimal capsuleHalfHeight = capsuleHeight * decimal(0.5);
-        const Vector3 capsuleSegA(0, -capsuleHalfHeight, 0);
-        const Vector3 capsuleSegB(0, capsuleHalfHeight, 0);
-
-        // Compute the point on the inner capsule segment that is the closes to center of sphere
-        const Vector3 closestPointOnSegment = computeClosestPointOnSegment(capsuleSegA, capsuleSegB, sphereCenter);
-
-        // Compute the distance between the sphere center and the closest point on the segment
-        Vector3 sphereCenterToSegment = (closestPointOnSegment - sphereCenter);
-        const decimal sphereSegmentDistanceSquare = sphereCenterToSegment.lengthSquare();
-
-        // Compute the sum of the radius of the sphere and the capsule (virtual sphere)
-        decimal sumRadius = sphereRadius + capsuleRadius;
-
-        // If the collision shapes overlap
-        if (sphereSegmentDistanceSquare < sumRadius * sumRadius) {
-
-            decimal penetrationDepth;
-            Vector3 normalWorld;
-            Vector3 contactPointSphereLocal;
-            Vector3 contactPointCapsuleLocal;
-
-            // If we need to report contacts
-            if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
-
-                // If the sphere center is not on the capsule inner segment
-                if (sphereSegmentDistanceSquare > MACHINE_EPSILON) {
-
-                    decimal sphereSegmentDistance = std::sqrt(sphereSegmentDistanceSquare);
-                    sphereCenterToSegment /= sphereSegmentDistance;
-
-                    contactPointSphereLocal = sphereToCapsuleSpaceTransform.getInverse() * (sphereCenter + sphereCenterToSegment * sphereRadius);
-                    contactPointCapsuleLocal = closestPointOnSegment - sphereCenterToSegment * capsuleRadius;
-
-                    normalWorld = capsuleToWorldTransform.getOrientation() * sphereCenterToSegment;
-
-                    penetrationDepth = sumRadius - sphereSegmentDistance;
-
-                    if (!isSphereShape1) {
-                        normalWorld = -normalWorld;
-                    }
-                }
-                else {  // If the sphere center is on the capsule inner segment (degenerate case)
-
-                    // We take any direction that is orthogonal to the inner capsule segment as a contact normal
-
-                    // Capsule inner segment
-                    Vector3 capsuleSegment = (capsuleSegB - capsuleSegA).getUnit();
-
-                    Vector3 vec1(1, 0, 0);
-                    Vector3 vec2(0, 1, 0);
-
-                    // Get the vectors (among vec1 and vec2) that is the most orthogonal to the capsule inner segment (smallest absolute dot product)
-                    decimal cosA1 = std::abs(capsuleSegment.x);		// abs(vec1.dot(seg2))
-                    decimal cosA2 = std::abs(capsuleSegment.y);	    // abs(vec2.dot(seg2))
-
-                    penetrationDepth = sumRadius;
-
-                    // We choose as a contact normal, any direction that is perpendicular to the inner capsule segment
-                    Vector3 normalCapsuleSpace = cosA1 < cosA2 ? capsuleSegment.cross(vec1) : capsuleSegment.cross(vec2);
-                    normalWorld = capsuleToWorldTransform.getOrientation() * normalCapsuleSpace;
-
-                    // Compute the two local contact points
-                    contactPointSphereLocal = sphereToCapsuleSpaceTransform.getInverse() * (sphereCenter + normalCapsuleSpace * sphereRadius);
-                    contactPointCapsuleLocal = sphereCenter - normalCapsuleSpace * capsuleRadius;
-                }
-
-                if (penetrationDepth <= decimal(0.0)) {
-
-                    // No collision
-                    continue;
-                }
-
-                // Create the contact info object
-                narrowPhaseInfoBatch.addContactPoint(batchIndex, normalWorld, penetrationDepth,
-                                                 isSphereShape1 ? contactPointSphereLocal : contactPointCapsuleLocal,
-                                                 isSphereShape1 ? contactPointCapsuleLocal : contactPointSphereLocal);
-            }
-
-            narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding = true;
-            isCollisionFound = true;
-            continue;
-        }
-    }
-
-    return isCollisionFound;
-}
+/********************************************************************************
+* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
+* Copyright (c) 2010-2024 Daniel Chappuis                                       *
+*********************************************************************************
+*                                                                               *
+* This software is provided 'as-is', without any express or implied warranty.   *
+* In no event will the authors be held liable for any damages arising from the  *
+* use of this software.                                                         *
+*                                                                               *
+* Permission is granted to anyone to use this software for any purpose,         *
+* including commercial applications, and to alter it and redistribute it        *
+* freely, subject to the following restrictions:                                *
+*                                                                               *
+* 1. The origin of this software must not be misrepresented; you must not claim *
+*    that you wrote the original software. If you use this software in a        *
+*    product, an acknowledgment in the product documentation would be           *
+*    appreciated but is not required.                                           *
+*                                                                               *
+* 2. Altered source versions must be plainly marked as such, and must not be    *
+*    misrepresented as being the original software.                             *
+*                                                                               *
+* 3. This notice may not be removed or altered from any source distribution.    *
+*                                                                               *
+********************************************************************************/
+
+// Libraries
+#include <reactphysics3d/collision/narrowphase/SphereVsCapsuleAlgorithm.h>
+#include <reactphysics3d/collision/shapes/SphereShape.h>
+#include <reactphysics3d/collision/shapes/CapsuleShape.h>
+#include <reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h>
+
+// We want to use the ReactPhysics3D namespace
+using namespace reactphysics3d;  
+
+// Compute the narrow-phase collision detection between a sphere and a capsule
+// This technique is based on the "Robust Contact Creation for Physics Simulations" presentation
+// by Dirk Gregorius.
+bool SphereVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchStartIndex, uint32 batchNbItems, MemoryAllocator& /*memoryAllocator*/) {
+
+    bool isCollisionFound = false;
+
+    for (uint32 batchIndex = batchStartIndex; batchIndex < batchStartIndex + batchNbItems; batchIndex++) {
+
+        assert(!narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding);
+        assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].nbContactPoints == 0);
+
+        const bool isSphereShape1 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1->getType() == CollisionShapeType::SPHERE;
+
+        const SphereShape* sphereShape = static_cast<SphereShape*>(isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1 : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2);
+        const CapsuleShape* capsuleShape = static_cast<CapsuleShape*>(isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2 : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1);
+
+        const decimal capsuleHeight = capsuleShape->getHeight();
+        const decimal sphereRadius = sphereShape->getRadius();
+        const decimal capsuleRadius = capsuleShape->getRadius();
+
+        // Get the transform from sphere local-space to capsule local-space
+        const Transform& sphereToWorldTransform = isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform;
+        const Transform& capsuleToWorldTransform = isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform;
+        const Transform worldToCapsuleTransform = capsuleToWorldTransform.getInverse();
+        const Transform sphereToCapsuleSpaceTransform = worldToCapsuleTransform * sphereToWorldTransform;
+
+        // Transform the center of the sphere into the local-space of the capsule shape
+        const Vector3 sphereCenter = sphereToCapsuleSpaceTransform.getPosition();
+
+        // Compute the end-points of the inner segment of the capsule
+        const decimal capsuleHalfHeight = capsuleHeight * decimal(0.5);
+        const Vector3 capsuleSegA(0, -capsuleHalfHeight, 0);
+        const Vector3 capsuleSegB(0, capsuleHalfHeight, 0);
+
+        // Compute the point on the inner capsule segment that is the closes to center of sphere
+        const Vector3 closestPointOnSegment = computeClosestPointOnSegment(capsuleSegA, capsuleSegB, sphereCenter);
+
+        // Compute the distance between the sphere center and the closest point on the segment
+        Vector3 sphereCenterToSegment = (closestPointOnSegment - sphereCenter);
+        const decimal sphereSegmentDistanceSquare = sphereCenterToSegment.lengthSquare();
+
+        // Compute the sum of the radius of the sphere and the capsule (virtual sphere)
+        decimal sumRadius = sphereRadius + capsuleRadius;
+
+        // If the collision shapes overlap
+        if (sphereSegmentDistanceSquare < sumRadius * sumRadius) {
+
+            decimal penetrationDepth;
+            Vector3 normalWorld;
+            Vector3 contactPointSphereLocal;
+            Vector3 contactPointCapsuleLocal;
+
+            // If we need to report contacts
+            if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
+
+                // If the sphere center is not on the capsule inner segment
+                if (sphereSegmentDistanceSquare > MACHINE_EPSILON) {
+
+                    decimal sphereSegmentDistance = std::sqrt(sphereSegmentDistanceSquare);
+                    sphereCenterToSegment /= sphereSegmentDistance;
+
+                    contactPointSphereLocal = sphereToCapsuleSpaceTransform.getInverse() * (sphereCenter + sphereCenterToSegment * sphereRadius);
+                    contactPointCapsuleLocal = closestPointOnSegment - sphereCenterToSegment * capsuleRadius;
+
+                    normalWorld = capsuleToWorldTransform.getOrientation() * sphereCenterToSegment;
+
+                    penetrationDepth = sumRadius - sphereSegmentDistance;
+                }
+                else {  // If the sphere center is on the capsule inner segment (degenerate case)
+
+                    // We take any direction that is orthogonal to the inner capsule segment as a contact normal
+
+                    // Capsule inner segment
+                    Vector3 capsuleSegment = (capsuleSegB - capsuleSegA).getUnit();
+
+                    Vector3 vec1(1, 0, 0);
+                    Vector3 vec2(0, 1, 0);
+
+                    // Get the vectors (among vec1 and vec2) that is the most orthogonal to the capsule inner segment (smallest absolute dot product)
+                    decimal cosA1 = std::abs(capsuleSegment.x);		// abs(vec1.dot(seg2))
+                    decimal cosA2 = std::abs(capsuleSegment.y);	    // abs(vec2.dot(seg2))
+
+                    penetrationDepth = sumRadius;
+
+                    // We choose as a contact normal, any direction that is perpendicular to the inner capsule segment
+                    Vector3 normalCapsuleSpace = cosA1 < cosA2 ? capsuleSegment.cross(vec1) : capsuleSegment.cross(vec2);
+                    normalWorld = capsuleToWorldTransform.getOrientation() * normalCapsuleSpace;
+
+                    // Compute the two local contact points
+                    contactPointSphereLocal = sphereToCapsuleSpaceTransform.getInverse() * (sphereCenter + normalCapsuleSpace * sphereRadius);
+                    contactPointCapsuleLocal = sphereCenter - normalCapsuleSpace * capsuleRadius;
+                }
+
+                // The contact normal goes from the first shape to the second one
+                if (!isSphereShape1) {
+                    normalWorld = -normalWorld;
+                }
+
+                if (penetrationDepth <= decimal(0.0)) {
+
+                    // No collision
+                    continue;
+                }
+
+                // Create the contact info object
+                narrowPhaseInfoBatch.addContactPoint(batchIndex, normalWorld, penetrationDepth,
+                                                 isSphereShape1 ? contactPointSphereLocal : contactPointCapsuleLocal,
+                                                 isSphereShape1 ? contactPointCapsuleLocal : contactPointSphereLocal);
+            }
+
+            narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding = true;
+            isCollisionFound = true;
+            continue;
+        }
+    }
+
+    return isCollisionFound;
+}
-- 
2.43.0


From 66b2ece8ddfff432650a645c0771dd995f46f7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:00 +0000
Subject: [PATCH 16/21] fix: short vectors are not parallel only because they
 are short

---
 include/reactphysics3d/mathematics/mathematics_functions.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/reactphysics3d/mathematics/mathematics_functions.h b/include/reactphysics3d/mathematics/mathematics_functions.h
index 1c1aca7..583975c 100755
--- a/include/reactphysics3d/mathematics/mathematics_functions.h
+++ b/include/reactphysics3d/mathematics/mathematics_functions.h
@@ -74,7 +74,10 @@ RP3D_FORCE_INLINE bool sameSign(decimal a, decimal b) {
 
 // Return true if two vectors are parallel
 RP3D_FORCE_INLINE bool areParallelVectors(const Vector3& vector1, const Vector3& vector2) {
-    return vector1.cross(vector2).lengthSquare() < decimal(0.00001);
+    const decimal tolerance = decimal(0.00001);
+    const decimal crossSquare = vector1.cross(vector2).lengthSquare();
+    // Two short vectors are not parallel only because they are short
+    return crossSquare < tolerance && crossSquare <= tolerance * vector1.lengthSquare() * vector2.lengthSquare();
 }
 
 
-- 
2.43.0


From 069e75b107bde8f48c29880c3d15b14209ba2a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:17 +0000
Subject: [PATCH 17/21] fix: keep the line endings of the two narrow phase
 files

---
 .../narrowphase/SphereVsCapsuleAlgorithm.cpp  | 306 +++++++++---------
 .../narrowphase/SphereVsSphereAlgorithm.cpp   | 226 ++++++-------
 2 files changed, 266 insertions(+), 266 deletions(-)

diff --git a/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp b/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
index f885b99..bf968e7 100755
--- a/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
+++ b/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
@@ -1,153 +1,153 @@
-/********************************************************************************
-* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
-* Copyright (c) 2010-2024 Daniel Chappuis                                       *
-*********************************************************************************
-*                                                                               *
-* This software is provided 'as-is', without any express or implied warranty.   *
-* In no event will the authors be held liable for any damages arising from the  *
-* use of this software.                                                         *
-*                                                                               *
-* Permission is granted to anyone to use this software for any purpose,         *
-* including commercial applications, and to alter it and redistribute it        *
-* freely, subject to the following restrictions:                                *
-*                                                                               *
-* 1. The origin of this software must not be misrepresented; you must not claim *
-*    that you wrote the original software. If you use this software in a        *
-*    product, an acknowledgment in the product documentation would be           *
-*    appreciated but is not required.                                           *
-*                                                                               *
-* 2. Altered source versions must be plainly marked as such, and must not be    *
-*    misrepresented as being the original software.                             *
-*                                                                               *
-* 3. This notice may not be removed or altered from any source distribution.    *
-*                                                                               *
-********************************************************************************/
-
-// Libraries
-#include <reactphysics3d/collision/narrowphase/SphereVsCapsuleAlgorithm.h>
-#include <reactphysics3d/collision/shapes/SphereShape.h>
-#include <reactphysics3d/collision/shapes/CapsuleShape.h>
-#include <reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h>
-
-// We want to use the ReactPhysics3D namespace
-using namespace reactphysics3d;  
-
-// Compute the narrow-phase collision detection between a sphere and a capsule
-// This technique is based on the "Robust Contact Creation for Physics Simulations" presentation
-// by Dirk Gregorius.
-bool SphereVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchStartIndex, uint32 batchNbItems, MemoryAllocator& /*memoryAllocator*/) {
-
-    bool isCollisionFound = false;
-
-    for (uint32 batchIndex = batchStartIndex; batchIndex < batchStartIndex + batchNbItems; batchIndex++) {
-
-        assert(!narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding);
-        assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].nbContactPoints == 0);
-
-        const bool isSphereShape1 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1->getType() == CollisionShapeType::SPHERE;
-
-        const SphereShape* sphereShape = static_cast<SphereShape*>(isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1 : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2);
-        const CapsuleShape* capsuleShape = static_cast<CapsuleShape*>(isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2 : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1);
-
-        const decimal capsuleHeight = capsuleShape->getHeight();
-        const decimal sphereRadius = sphereShape->getRadius();
-        const decimal capsuleRadius = capsuleShape->getRadius();
-
-        // Get the transform from sphere local-space to capsule local-space
-        const Transform& sphereToWorldTransform = isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform;
-        const Transform& capsuleToWorldTransform = isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform;
-        const Transform worldToCapsuleTransform = capsuleToWorldTransform.getInverse();
-        const Transform sphereToCapsuleSpaceTransform = worldToCapsuleTransform * sphereToWorldTransform;
-
-        // Transform the center of the sphere into the local-space of the capsule shape
-        const Vector3 sphereCenter = sphereToCapsuleSpaceTransform.getPosition();
-
-        // Compute the end-points of the inner segment of the capsule
-        const decimal capsuleHalfHeight = capsuleHeight * decimal(0.5);
-        const Vector3 capsuleSegA(0, -capsuleHalfHeight, 0);
-        const Vector3 capsuleSegB(0, capsuleHalfHeight, 0);
-
-        // Compute the point on the inner capsule segment that is the closes to center of sphere
-        const Vector3 closestPointOnSegment = computeClosestPointOnSegment(capsuleSegA, capsuleSegB, sphereCenter);
-
-        // Compute the distance between the sphere center and the closest point on the segment
-        Vector3 sphereCenterToSegment = (closestPointOnSegment - sphereCenter);
-        const decimal sphereSegmentDistanceSquare = sphereCenterToSegment.lengthSquare();
-
-        // Compute the sum of the radius of the sphere and the capsule (virtual sphere)
-        decimal sumRadius = sphereRadius + capsuleRadius;
-
-        // If the collision shapes overlap
-        if (sphereSegmentDistanceSquare < sumRadius * sumRadius) {
-
-            decimal penetrationDepth;
-            Vector3 normalWorld;
-            Vector3 contactPointSphereLocal;
-            Vector3 contactPointCapsuleLocal;
-
-            // If we need to report contacts
-            if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
-
-                // If the sphere center is not on the capsule inner segment
-                if (sphereSegmentDistanceSquare > MACHINE_EPSILON) {
-
-                    decimal sphereSegmentDistance = std::sqrt(sphereSegmentDistanceSquare);
-                    sphereCenterToSegment /= sphereSegmentDistance;
-
-                    contactPointSphereLocal = sphereToCapsuleSpaceTransform.getInverse() * (sphereCenter + sphereCenterToSegment * sphereRadius);
-                    contactPointCapsuleLocal = closestPointOnSegment - sphereCenterToSegment * capsuleRadius;
-
-                    normalWorld = capsuleToWorldTransform.getOrientation() * sphereCenterToSegment;
-
-                    penetrationDepth = sumRadius - sphereSegmentDistance;
-                }
-                else {  // If the sphere center is on the capsule inner segment (degenerate case)
-
-                    // We take any direction that is orthogonal to the inner capsule segment as a contact normal
-
-                    // Capsule inner segment
-                    Vector3 capsuleSegment = (capsuleSegB - capsuleSegA).getUnit();
-
-                    Vector3 vec1(1, 0, 0);
-                    Vector3 vec2(0, 1, 0);
-
-                    // Get the vectors (among vec1 and vec2) that is the most orthogonal to the capsule inner segment (smallest absolute dot product)
-                    decimal cosA1 = std::abs(capsuleSegment.x);		// abs(vec1.dot(seg2))
-                    decimal cosA2 = std::abs(capsuleSegment.y);	    // abs(vec2.dot(seg2))
-
-                    penetrationDepth = sumRadius;
-
-                    // We choose as a contact normal, any direction that is perpendicular to the inner capsule segment
-                    Vector3 normalCapsuleSpace = cosA1 < cosA2 ? capsuleSegment.cross(vec1) : capsuleSegment.cross(vec2);
-                    normalWorld = capsuleToWorldTransform.getOrientation() * normalCapsuleSpace;
-
-                    // Compute the two local contact points
-                    contactPointSphereLocal = sphereToCapsuleSpaceTransform.getInverse() * (sphereCenter + normalCapsuleSpace * sphereRadius);
-                    contactPointCapsuleLocal = sphereCenter - normalCapsuleSpace * capsuleRadius;
-                }
-
-                // The contact normal goes from the first shape to the second one
-                if (!isSphereShape1) {
-                    normalWorld = -normalWorld;
-                }
-
-                if (penetrationDepth <= decimal(0.0)) {
-
-                    // No collision
-                    continue;
-                }
-
-                // Create the contact info object
-                narrowPhaseInfoBatch.addContactPoint(batchIndex, normalWorld, penetrationDepth,
-                                                 isSphereShape1 ? contactPointSphereLocal : contactPointCapsuleLocal,
-                                                 isSphereShape1 ? contactPointCapsuleLocal : contactPointSphereLocal);
-            }
-
-            narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding = true;
-            isCollisionFound = true;
-            continue;
-        }
-    }
-
-    return isCollisionFound;
-}
+/********************************************************************************
+* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
+* Copyright (c) 2010-2024 Daniel Chappuis                                       *
+*********************************************************************************
+*                                                                               *
+* This software is provided 'as-is', without any express or implied warranty.   *
+* In no event will the authors be held liable for any damages arising from the  *
+* use of this software.                                                         *
+*                                                                               *
+* Permission is granted to anyone to use this software for any purpose,         *
+* including commercial applications, and to alter it and redistribute it        *
+* freely, subject to the following restrictions:                                *
+*                                                                               *
+* 1. The origin of this software must not be misrepresented; you must not claim *
+*    that you wrote the original software. If you use this software in a        *
+*    product, an acknowledgment in the product documentation would be           *
+*    appreciated but is not required.                                           *
+*                                                                               *
+* 2. Altered source versions must be plainly marked as such, and must not be    *
+*    misrepresented as being the original software.                             *
+*                                                                               *
+* 3. This notice may not be removed or altered from any source distribution.    *
+*                                                                               *
+********************************************************************************/
+
+// Libraries
+#include <reactphysics3d/collision/narrowphase/SphereVsCapsuleAlgorithm.h>
+#include <reactphysics3d/collision/shapes/SphereShape.h>
+#include <reactphysics3d/collision/shapes/CapsuleShape.h>
+#include <reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h>
+
+// We want to use the ReactPhysics3D namespace
+using namespace reactphysics3d;  
+
+// Compute the narrow-phase collision detection between a sphere and a capsule
+// This technique is based on the "Robust Contact Creation for Physics Simulations" presentation
+// by Dirk Gregorius.
+bool SphereVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchStartIndex, uint32 batchNbItems, MemoryAllocator& /*memoryAllocator*/) {
+
+    bool isCollisionFound = false;
+
+    for (uint32 batchIndex = batchStartIndex; batchIndex < batchStartIndex + batchNbItems; batchIndex++) {
+
+        assert(!narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding);
+        assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].nbContactPoints == 0);
+
+        const bool isSphereShape1 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1->getType() == CollisionShapeType::SPHERE;
+
+        const SphereShape* sphereShape = static_cast<SphereShape*>(isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1 : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2);
+        const CapsuleShape* capsuleShape = static_cast<CapsuleShape*>(isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2 : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1);
+
+        const decimal capsuleHeight = capsuleShape->getHeight();
+        const decimal sphereRadius = sphereShape->getRadius();
+        const decimal capsuleRadius = capsuleShape->getRadius();
+
+        // Get the transform from sphere local-space to capsule local-space
+        const Transform& sphereToWorldTransform = isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform;
+        const Transform& capsuleToWorldTransform = isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform;
+        const Transform worldToCapsuleTransform = capsuleToWorldTransform.getInverse();
+        const Transform sphereToCapsuleSpaceTransform = worldToCapsuleTransform * sphereToWorldTransform;
+
+        // Transform the center of the sphere into the local-space of the capsule shape
+        const Vector3 sphereCenter = sphereToCapsuleSpaceTransform.getPosition();
+
+        // Compute the end-points of the inner segment of the capsule
+        const decimal capsuleHalfHeight = capsuleHeight * decimal(0.5);
+        const Vector3 capsuleSegA(0, -capsuleHalfHeight, 0);
+        const Vector3 capsuleSegB(0, capsuleHalfHeight, 0);
+
+        // Compute the point on the inner capsule segment that is the closes to center of sphere
+        const Vector3 closestPointOnSegment = computeClosestPointOnSegment(capsuleSegA, capsuleSegB, sphereCenter);
+
+        // Compute the distance between the sphere center and the closest point on the segment
+        Vector3 sphereCenterToSegment = (closestPointOnSegment - sphereCenter);
+        const decimal sphereSegmentDistanceSquare = sphereCenterToSegment.lengthSquare();
+
+        // Compute the sum of the radius of the sphere and the capsule (virtual sphere)
+        decimal sumRadius = sphereRadius + capsuleRadius;
+
+        // If the collision shapes overlap
+        if (sphereSegmentDistanceSquare < sumRadius * sumRadius) {
+
+            decimal penetrationDepth;
+            Vector3 normalWorld;
+            Vector3 contactPointSphereLocal;
+            Vector3 contactPointCapsuleLocal;
+
+            // If we need to report contacts
+            if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
+
+                // If the sphere center is not on the capsule inner segment
+                if (sphereSegmentDistanceSquare > MACHINE_EPSILON) {
+
+                    decimal sphereSegmentDistance = std::sqrt(sphereSegmentDistanceSquare);
+                    sphereCenterToSegment /= sphereSegmentDistance;
+
+                    contactPointSphereLocal = sphereToCapsuleSpaceTransform.getInverse() * (sphereCenter + sphereCenterToSegment * sphereRadius);
+                    contactPointCapsuleLocal = closestPointOnSegment - sphereCenterToSegment * capsuleRadius;
+
+                    normalWorld = capsuleToWorldTransform.getOrientation() * sphereCenterToSegment;
+
+                    penetrationDepth = sumRadius - sphereSegmentDistance;
+                }
+                else {  // If the sphere center is on the capsule inner segment (degenerate case)
+
+                    // We take any direction that is orthogonal to the inner capsule segment as a contact normal
+
+                    // Capsule inner segment
+                    Vector3 capsuleSegment = (capsuleSegB - capsuleSegA).getUnit();
+
+                    Vector3 vec1(1, 0, 0);
+                    Vector3 vec2(0, 1, 0);
+
+                    // Get the vectors (among vec1 and vec2) that is the most orthogonal to the capsule inner segment (smallest absolute dot product)
+                    decimal cosA1 = std::abs(capsuleSegment.x);		// abs(vec1.dot(seg2))
+                    decimal cosA2 = std::abs(capsuleSegment.y);	    // abs(vec2.dot(seg2))
+
+                    penetrationDepth = sumRadius;
+
+                    // We choose as a contact normal, any direction that is perpendicular to the inner capsule segment
+                    Vector3 normalCapsuleSpace = cosA1 < cosA2 ? capsuleSegment.cross(vec1) : capsuleSegment.cross(vec2);
+                    normalWorld = capsuleToWorldTransform.getOrientation() * normalCapsuleSpace;
+
+                    // Compute the two local contact points
+                    contactPointSphereLocal = sphereToCapsuleSpaceTransform.getInverse() * (sphereCenter + normalCapsuleSpace * sphereRadius);
+                    contactPointCapsuleLocal = sphereCenter - normalCapsuleSpace * capsuleRadius;
+                }
+
+                // The contact normal goes from the first shape to the second one
+                if (!isSphereShape1) {
+                    normalWorld = -normalWorld;
+                }
+
+                if (penetrationDepth <= decimal(0.0)) {
+
+                    // No collision
+                    continue;
+                }
+
+                // Create the contact info object
+                narrowPhaseInfoBatch.addContactPoint(batchIndex, normalWorld, penetrationDepth,
+                                                 isSphereShape1 ? contactPointSphereLocal : contactPointCapsuleLocal,
+                                                 isSphereShape1 ? contactPointCapsuleLocal : contactPointSphereLocal);
+            }
+
+            narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding = true;
+            isCollisionFound = true;
+            continue;
+        }
+    }
+
+    return isCollisionFound;
+}
diff --git a/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp b/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp
index 41894c7..d6148e8 100755
--- a/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp
+++ b/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp
@@ -1,113 +1,113 @@
-/********************************************************************************
-* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
-* Copyright (c) 2010-2024 Daniel Chappuis                                       *
-*********************************************************************************
-*                                                                               *
-* This software is provided 'as-is', without any express or implied warranty.   *
-* In no event will the authors be held liable for any damages arising from the  *
-* use of this software.                                                         *
-*                                                                               *
-* Permission is granted to anyone to use this software for any purpose,         *
-* including commercial applications, and to alter it and redistribute it        *
-* freely, subject to the following restrictions:                                *
-*                                                                               *
-* 1. The origin of this software must not be misrepresented; you must not claim *
-*    that you wrote the original software. If you use this software in a        *
-*    product, an acknowledgment in the product documentation would be           *
-*    appreciated but is not required.                                           *
-*                                                                               *
-* 2. Altered source versions must be plainly marked as such, and must not be    *
-*    misrepresented as being the original software.                             *
-*                                                                               *
-* 3. This notice may not be removed or altered from any source distribution.    *
-*                                                                               *
-********************************************************************************/
-
-// Libraries
-#include <reactphysics3d/collision/narrowphase/SphereVsSphereAlgorithm.h>
-#include <reactphysics3d/collision/shapes/SphereShape.h>
-#include <reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h>
-
-// We want to use the ReactPhysics3D namespace
-using namespace reactphysics3d;  
-
-bool SphereVsSphereAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchStartIndex, uint32 batchNbItems, MemoryAllocator& /*memoryAllocator*/) {
-
-    bool isCollisionFound = false;
-
-    // For each item in the batch
-    for (uint32 batchIndex = batchStartIndex; batchIndex < batchStartIndex + batchNbItems; batchIndex++) {
-
-        assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].nbContactPoints == 0);
-        assert(!narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding);
-
-        // Get the local-space to world-space transforms
-        const Transform& transform1 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform;
-        const Transform& transform2 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform;
-
-        // Compute the distance between the centers
-        Vector3 vectorBetweenCenters = transform2.getPosition() - transform1.getPosition();
-        decimal squaredDistanceBetweenCenters = vectorBetweenCenters.lengthSquare();
-
-        const SphereShape* sphereShape1 = static_cast<SphereShape*>(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1);
-        const SphereShape* sphereShape2 = static_cast<SphereShape*>(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2);
-
-        const decimal sphere1Radius = sphereShape1->getRadius();
-        const decimal sphere2Radius = sphereShape2->getRadius();
-
-        // Compute the sum of the radius
-        const decimal sumRadiuses = sphere1Radius + sphere2Radius;
-
-        // Compute the product of the sum of the radius
-        const decimal sumRadiusesProducts = sumRadiuses * sumRadiuses;
-
-        // If the sphere collision shapes intersect
-        if (squaredDistanceBetweenCenters < sumRadiusesProducts) {
-
-            const decimal penetrationDepth = sumRadiuses - std::sqrt(squaredDistanceBetweenCenters);
-
-            // Make sure the penetration depth is not zero (even if the previous condition test was true the penetration depth can still be
-            // zero because of precision issue of the computation at the previous line)
-            if (penetrationDepth > 0) {
-
-                // If we need to report contacts
-                if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
-
-                    const Transform transform1Inverse = transform1.getInverse();
-                    const Transform transform2Inverse = transform2.getInverse();
-
-                    Vector3 intersectionOnBody1;
-                    Vector3 intersectionOnBody2;
-                    Vector3 normal;
-
-                    // If the two sphere centers are not at the same position
-                    if (squaredDistanceBetweenCenters > MACHINE_EPSILON) {
-
-                        const Vector3 centerSphere2InBody1LocalSpace = transform1Inverse * transform2.getPosition();
-                        const Vector3 centerSphere1InBody2LocalSpace = transform2Inverse * transform1.getPosition();
-
-                        intersectionOnBody1 = sphere1Radius * centerSphere2InBody1LocalSpace.getUnit();
-                        intersectionOnBody2 = sphere2Radius * centerSphere1InBody2LocalSpace.getUnit();
-                        normal = vectorBetweenCenters.getUnit();
-                    }
-                    else {    // If the sphere centers are at the same position (degenerate case)
-
-                        // Take any contact normal direction
-                        normal.setAllValues(0, 1, 0);
-
-                        intersectionOnBody1 = sphere1Radius * (transform1Inverse.getOrientation() * normal);
-                        intersectionOnBody2 = -sphere2Radius * (transform2Inverse.getOrientation() * normal);
-                    }
-
-                    // Create the contact info object
-                    narrowPhaseInfoBatch.addContactPoint(batchIndex, normal, penetrationDepth, intersectionOnBody1, intersectionOnBody2);
-                }
-
-                narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding = true;
-                isCollisionFound = true;
-            }
-        }
-    }
-
-    return isCollisionFound;
-}
+/********************************************************************************
+* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
+* Copyright (c) 2010-2024 Daniel Chappuis                                       *
+*********************************************************************************
+*                                                                               *
+* This software is provided 'as-is', without any express or implied warranty.   *
+* In no event will the authors be held liable for any damages arising from the  *
+* use of this software.                                                         *
+*                                                                               *
+* Permission is granted to anyone to use this software for any purpose,         *
+* including commercial applications, and to alter it and redistribute it        *
+* freely, subject to the following restrictions:                                *
+*                                                                               *
+* 1. The origin of this software must not be misrepresented; you must not claim *
+*    that you wrote the original software. If you use this software in a        *
+*    product, an acknowledgment in the product documentation would be           *
+*    appreciated but is not required.                                           *
+*                                                                               *
+* 2. Altered source versions must be plainly marked as such, and must not be    *
+*    misrepresented as being the original software.                             *
+*                                                                               *
+* 3. This notice may not be removed or altered from any source distribution.    *
+*                                                                               *
+********************************************************************************/
+
+// Libraries
+#include <reactphysics3d/collision/narrowphase/SphereVsSphereAlgorithm.h>
+#include <reactphysics3d/collision/shapes/SphereShape.h>
+#include <reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h>
+
+// We want to use the ReactPhysics3D namespace
+using namespace reactphysics3d;  
+
+bool SphereVsSphereAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchStartIndex, uint32 batchNbItems, MemoryAllocator& /*memoryAllocator*/) {
+
+    bool isCollisionFound = false;
+
+    // For each item in the batch
+    for (uint32 batchIndex = batchStartIndex; batchIndex < batchStartIndex + batchNbItems; batchIndex++) {
+
+        assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].nbContactPoints == 0);
+        assert(!narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding);
+
+        // Get the local-space to world-space transforms
+        const Transform& transform1 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform;
+        const Transform& transform2 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform;
+
+        // Compute the distance between the centers
+        Vector3 vectorBetweenCenters = transform2.getPosition() - transform1.getPosition();
+        decimal squaredDistanceBetweenCenters = vectorBetweenCenters.lengthSquare();
+
+        const SphereShape* sphereShape1 = static_cast<SphereShape*>(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1);
+        const SphereShape* sphereShape2 = static_cast<SphereShape*>(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2);
+
+        const decimal sphere1Radius = sphereShape1->getRadius();
+        const decimal sphere2Radius = sphereShape2->getRadius();
+
+        // Compute the sum of the radius
+        const decimal sumRadiuses = sphere1Radius + sphere2Radius;
+
+        // Compute the product of the sum of the radius
+        const decimal sumRadiusesProducts = sumRadiuses * sumRadiuses;
+
+        // If the sphere collision shapes intersect
+        if (squaredDistanceBetweenCenters < sumRadiusesProducts) {
+
+            const decimal penetrationDepth = sumRadiuses - std::sqrt(squaredDistanceBetweenCenters);
+
+            // Make sure the penetration depth is not zero (even if the previous condition test was true the penetration depth can still be
+            // zero because of precision issue of the computation at the previous line)
+            if (penetrationDepth > 0) {
+
+                // If we need to report contacts
+                if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
+
+                    const Transform transform1Inverse = transform1.getInverse();
+                    const Transform transform2Inverse = transform2.getInverse();
+
+                    Vector3 intersectionOnBody1;
+                    Vector3 intersectionOnBody2;
+                    Vector3 normal;
+
+                    // If the two sphere centers are not at the same position
+                    if (squaredDistanceBetweenCenters > MACHINE_EPSILON) {
+
+                        const Vector3 centerSphere2InBody1LocalSpace = transform1Inverse * transform2.getPosition();
+                        const Vector3 centerSphere1InBody2LocalSpace = transform2Inverse * transform1.getPosition();
+
+                        intersectionOnBody1 = sphere1Radius * centerSphere2InBody1LocalSpace.getUnit();
+                        intersectionOnBody2 = sphere2Radius * centerSphere1InBody2LocalSpace.getUnit();
+                        normal = vectorBetweenCenters.getUnit();
+                    }
+                    else {    // If the sphere centers are at the same position (degenerate case)
+
+                        // Take any contact normal direction
+                        normal.setAllValues(0, 1, 0);
+
+                        intersectionOnBody1 = sphere1Radius * (transform1Inverse.getOrientation() * normal);
+                        intersectionOnBody2 = -sphere2Radius * (transform2Inverse.getOrientation() * normal);
+                    }
+
+                    // Create the contact info object
+                    narrowPhaseInfoBatch.addContactPoint(batchIndex, normal, penetrationDepth, intersectionOnBody1, intersectionOnBody2);
+                }
+
+                narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding = true;
+                isCollisionFound = true;
+            }
+        }
+    }
+
+    return isCollisionFound;
+}
-- 
2.43.0


From 82867b0038f0349665f3315bc1cfedcb485e3cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 18/21] fix: swapping two hinge joint components keeps the
 upper limit bias

---
 src/components/HingeJointComponents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/HingeJointComponents.cpp b/src/components/HingeJointComponents.cpp
index 2bd3247..5a65994 100644
--- a/src/components/HingeJointComponents.cpp
+++ b/src/components/HingeJointComponents.cpp
@@ -354,7 +354,7 @@ void HingeJointComponents::swapComponents(uint32 index1, uint32 index2) {
     decimal inverseMassMatrixLimitMotor(mInverseMassMatrixLimitMotor[index1]);
     decimal inverseMassMatrixMotor(mInverseMassMatrixMotor[index1]);
     decimal bLowerLimit(mBLowerLimit[index1]);
-    decimal bUpperLimit(mUpperLimit[index1]);
+    decimal bUpperLimit(mBUpperLimit[index1]);
     bool isLimitEnabled(mIsLimitEnabled[index1]);
     bool isMotorEnabled(mIsMotorEnabled[index1]);
     decimal lowerLimit(mLowerLimit[index1]);
-- 
2.43.0


From 2bed6a236ba7f91b9028b266bd5b7e41321fc0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 19/21] fix: swapping two slider joint components keeps the
 upper limit bias

---
 src/components/SliderJointComponents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/SliderJointComponents.cpp b/src/components/SliderJointComponents.cpp
index 9f8787f..019da78 100644
--- a/src/components/SliderJointComponents.cpp
+++ b/src/components/SliderJointComponents.cpp
@@ -385,7 +385,7 @@ void SliderJointComponents::swapComponents(uint32 index1, uint32 index2) {
     decimal inverseMassMatrixLimit(mInverseMassMatrixLimit[index1]);
     decimal inverseMassMatrixMotor(mInverseMassMatrixMotor[index1]);
     decimal bLowerLimit(mBLowerLimit[index1]);
-    decimal bUpperLimit(mUpperLimit[index1]);
+    decimal bUpperLimit(mBUpperLimit[index1]);
     bool isLimitEnabled(mIsLimitEnabled[index1]);
     bool isMotorEnabled(mIsMotorEnabled[index1]);
     decimal lowerLimit(mLowerLimit[index1]);
-- 
2.43.0


From 1a2a40a41c7047c728a384eff52b4aa25c8b523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 20/21] fix: the vectors of slider joints are copied entirely
 when their arrays grow

---
 src/components/SliderJointComponents.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/components/SliderJointComponents.cpp b/src/components/SliderJointComponents.cpp
index 019da78..128da58 100644
--- a/src/components/SliderJointComponents.cpp
+++ b/src/components/SliderJointComponents.cpp
@@ -185,12 +185,12 @@ void SliderJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newIsUpperLimitViolated, mIsUpperLimitViolated, mNbComponents * sizeof(bool));
         memcpy(newMotorSpeed, mMotorSpeed, mNbComponents * sizeof(decimal));
         memcpy(newMaxMotorForce, mMaxMotorForce, mNbComponents * sizeof(decimal));
-        memcpy(newR2CrossN1, mR2CrossN1, mNbComponents * sizeof(decimal));
-        memcpy(newR2CrossN2, mR2CrossN2, mNbComponents * sizeof(decimal));
-        memcpy(newR2CrossSliderAxis, mR2CrossSliderAxis, mNbComponents * sizeof(decimal));
-        memcpy(newR1PlusUCrossN1, mR1PlusUCrossN1, mNbComponents * sizeof(decimal));
-        memcpy(newR1PlusUCrossN2, mR1PlusUCrossN2, mNbComponents * sizeof(decimal));
-        memcpy(newR1PlusUCrossSliderAxis, mR1PlusUCrossSliderAxis, mNbComponents * sizeof(decimal));
+        memcpy(newR2CrossN1, mR2CrossN1, mNbComponents * sizeof(Vector3));
+        memcpy(newR2CrossN2, mR2CrossN2, mNbComponents * sizeof(Vector3));
+        memcpy(newR2CrossSliderAxis, mR2CrossSliderAxis, mNbComponents * sizeof(Vector3));
+        memcpy(newR1PlusUCrossN1, mR1PlusUCrossN1, mNbComponents * sizeof(Vector3));
+        memcpy(newR1PlusUCrossN2, mR1PlusUCrossN2, mNbComponents * sizeof(Vector3));
+        memcpy(newR1PlusUCrossSliderAxis, mR1PlusUCrossSliderAxis, mNbComponents * sizeof(Vector3));
 
         // Deallocate previous memory
         mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
-- 
2.43.0


From 66477b79fafe158910bca797eb5d217df87e55bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:05 +0000
Subject: [PATCH 21/21] fix: a query with a box on an empty tree does not run
 into the assertion about null nodes

---
 src/collision/broadphase/DynamicAABBTree.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collision/broadphase/DynamicAABBTree.cpp b/src/collision/broadphase/DynamicAABBTree.cpp
index 5804567..234e08a 100644
--- a/src/collision/broadphase/DynamicAABBTree.cpp
+++ b/src/collision/broadphase/DynamicAABBTree.cpp
@@ -652,12 +652,12 @@ void DynamicAABBTree::reportAllShapesOverlappingWithAABB(const AABB& aabb, Array
         // Get the next node ID to visit
         const int32 nodeIDToVisit = stack.pop();
 
-        assert(nodeIDToVisit >= 0);
-        assert(nodeIDToVisit < mNbAllocatedNodes);
-
         // Skip it if it is a null node
         if (nodeIDToVisit == TreeNode::NULL_TREE_NODE) continue;
 
+        assert(nodeIDToVisit >= 0);
+        assert(nodeIDToVisit < mNbAllocatedNodes);
+
         // Get the corresponding node
         const TreeNode* nodeToVisit = mNodes + nodeIDToVisit;
 
-- 
2.43.0

