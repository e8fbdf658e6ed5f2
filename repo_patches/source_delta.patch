From ec40dcfb8c01c115dcd7bfd96e1f8b8090838329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 01/81] Add RP3D_VERIF_HOOKS guarded pass-through in the
 allocators for verification builds

---
 .../memory/SingleFrameAllocator.h             |  8 ++++++
 src/memory/HeapAllocator.cpp                  | 11 ++++++++
 src/memory/PoolAllocator.cpp                  | 11 ++++++++
 src/memory/SingleFrameAllocator.cpp           | 28 +++++++++++++++++++
 4 files changed, 58 insertions(+)

diff --git a/include/reactphysics3d/memory/SingleFrameAllocator.h b/include/reactphysics3d/memory/SingleFrameAllocator.h
index 9455bb3..74f425a 100644
--- a/include/reactphysics3d/memory/SingleFrameAllocator.h
+++ b/include/reactphysics3d/memory/SingleFrameAllocator.h
@@ -30,6 +30,9 @@
 #include <reactphysics3d/memory/MemoryAllocator.h>
 #include <reactphysics3d/configuration.h>
 #include <mutex>
+#ifdef RP3D_VERIF_HOOKS
+#include <map>
+#endif
 
 /// ReactPhysics3D namespace
 namespace reactphysics3d {
@@ -68,6 +71,11 @@ class SingleFrameAllocator : public MemoryAllocator {
         /// True if we need to allocate more memory in the next reset() call
         bool mNeedToAllocatedMore;
 
+#ifdef RP3D_VERIF_HOOKS
+        /// Verification build: blocks handed out since the last reset and not released yet
+        std::map<void*, size_t> mVerifLiveBlocks;
+#endif
+
     public :
 
         // -------------------- Methods -------------------- //
diff --git a/src/memory/HeapAllocator.cpp b/src/memory/HeapAllocator.cpp
index 8f317eb..171d8a2 100644
--- a/src/memory/HeapAllocator.cpp
+++ b/src/memory/HeapAllocator.cpp
@@ -136,6 +136,12 @@ void* HeapAllocator::allocate(size_t size) {
         mNbTimesAllocateMethodCalled++;
 #endif
 
+#ifdef RP3D_VERIF_HOOKS
+    // Verification build: hand every block to the base allocator so that
+    // sanitizers and checking allocators observe each allocation individually
+    return mBaseAllocator.allocate(size);
+#endif
+
     MemoryUnitHeader* currentUnit = mFreeUnits;
 
     // For each free memory unit
@@ -226,6 +232,11 @@ void HeapAllocator::release(void* pointer, size_t size) {
         mNbTimesAllocateMethodCalled--;
 #endif
 
+#ifdef RP3D_VERIF_HOOKS
+    mBaseAllocator.release(pointer, size);
+    return;
+#endif
+
     // Read the alignment offset in order to compute the initial allocated
     // raw address (instead of the aligned address)
     const uint8* pAlignedMemory = reinterpret_cast<const uint8*>(pointer);
diff --git a/src/memory/PoolAllocator.cpp b/src/memory/PoolAllocator.cpp
index df04b8e..b626c72 100644
--- a/src/memory/PoolAllocator.cpp
+++ b/src/memory/PoolAllocator.cpp
@@ -112,6 +112,12 @@ void* PoolAllocator::allocate(size_t size) {
         mNbTimesAllocateMethodCalled++;
 #endif
 
+#ifdef RP3D_VERIF_HOOKS
+    // Verification build: hand every object to the base allocator so that
+    // sanitizers and checking allocators observe each allocation individually
+    return mBaseAllocator.allocate(size);
+#endif
+
     // If we need to allocate more than the maximum memory unit size
     if (size > MAX_UNIT_SIZE) {
 
@@ -206,6 +212,11 @@ void PoolAllocator::release(void* pointer, size_t size) {
         mNbTimesAllocateMethodCalled--;
 #endif
 
+#ifdef RP3D_VERIF_HOOKS
+    mBaseAllocator.release(pointer, size);
+    return;
+#endif
+
     // If the size is larger than the maximum memory unit size
     if (size > MAX_UNIT_SIZE) {
 
diff --git a/src/memory/SingleFrameAllocator.cpp b/src/memory/SingleFrameAllocator.cpp
index 00ff8e6..103305f 100644
--- a/src/memory/SingleFrameAllocator.cpp
+++ b/src/memory/SingleFrameAllocator.cpp
@@ -50,6 +50,10 @@ SingleFrameAllocator::SingleFrameAllocator(MemoryAllocator& baseAllocator) : mBa
 // Destructor
 SingleFrameAllocator::~SingleFrameAllocator() {
 
+#ifdef RP3D_VERIF_HOOKS
+    reset();
+#endif
+
     // Release the memory allocated at the beginning
     mBaseAllocator.release(mMemoryBufferStart, mTotalSizeBytes);
 }
@@ -61,6 +65,14 @@ void* SingleFrameAllocator::allocate(size_t size) {
     // Lock the method with a mutex
     std::lock_guard<std::mutex> lock(mMutex);
 
+#ifdef RP3D_VERIF_HOOKS
+    // Verification build: every frame allocation is an individual block of the base
+    // allocator. Blocks that have not been released die when the frame is reset
+    void* block = mBaseAllocator.allocate(size);
+    mVerifLiveBlocks[block] = size;
+    return block;
+#endif
+
     // Allocate a little bit more memory to make sure we can return an aligned address
     const size_t totalSize = size + GLOBAL_ALIGNMENT;
 
@@ -96,6 +108,15 @@ void SingleFrameAllocator::release(void* pointer, size_t size) {
     // Lock the method with a mutex
     std::lock_guard<std::mutex> lock(mMutex);
 
+#ifdef RP3D_VERIF_HOOKS
+    auto itBlock = mVerifLiveBlocks.find(pointer);
+    if (itBlock != mVerifLiveBlocks.end()) {
+        mVerifLiveBlocks.erase(itBlock);
+        mBaseAllocator.release(pointer, size);
+    }
+    return;
+#endif
+
     // If allocated memory is not within the single frame allocation range
     char* p = static_cast<char*>(pointer);
     if (p < mMemoryBufferStart || p > mMemoryBufferStart + mTotalSizeBytes) {
@@ -111,6 +132,13 @@ void SingleFrameAllocator::reset() {
     // Lock the method with a mutex
     std::lock_guard<std::mutex> lock(mMutex);
 
+#ifdef RP3D_VERIF_HOOKS
+    for (auto& block : mVerifLiveBlocks) {
+        mBaseAllocator.release(block.first, block.second);
+    }
+    mVerifLiveBlocks.clear();
+#endif
+
     // If we need to allocate more memory
     if (mNeedToAllocatedMore) {
 
-- 
2.43.0


From 966b60a9909de6e617b7fbaf7f0320eade33e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:22 +0000
Subject: [PATCH 02/81] fix: take the scale into account when searching the
 support point of a convex mesh shape

The support vertex was chosen with the unscaled vertices and only the result
was scaled, so a non-uniformly scaled convex mesh had a wrong support mapping
and collisions with it were missed.
---
 src/collision/shapes/ConvexMeshShape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/shapes/ConvexMeshShape.cpp b/src/collision/shapes/ConvexMeshShape.cpp
index ee6c33e..30be61c 100644
--- a/src/collision/shapes/ConvexMeshShape.cpp
+++ b/src/collision/shapes/ConvexMeshShape.cpp
@@ -86,7 +86,7 @@ Vector3 ConvexMeshShape::getLocalSupportPointWithoutMargin(const Vector3& direct
     for (uint32 i=0; i<mConvexMesh->getNbVertices(); i++) {
 
         // Compute the dot product of the current vertex
-        decimal dotProduct = direction.dot(mConvexMesh->getVertex(i));
+        decimal dotProduct = direction.dot(mConvexMesh->getVertex(i) * mScale);
 
         // If the current dot product is larger than the maximum one
         if (dotProduct > maxDotProduct) {
-- 
2.43.0


From e91e65bceea48edd19b8f2c6c6d3c2d9b6f9e510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:22 +0000
Subject: [PATCH 03/81] fix: use the scaled vertices in the raycast and point
 tests of a convex mesh shape

The planes of the faces were built from the scaled normals and the unscaled
vertices, so rays and points were tested against another polyhedron than the
scaled one.
---
 src/collision/shapes/ConvexMeshShape.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision/shapes/ConvexMeshShape.cpp b/src/collision/shapes/ConvexMeshShape.cpp
index 30be61c..af4bc63 100644
--- a/src/collision/shapes/ConvexMeshShape.cpp
+++ b/src/collision/shapes/ConvexMeshShape.cpp
@@ -122,7 +122,7 @@ bool ConvexMeshShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider
         const HalfEdgeStructure::Face& face = halfEdgeStructure.getFace(f);
         const Vector3& faceNormal = getFaceNormal(f);
         const HalfEdgeStructure::Vertex& faceVertex = halfEdgeStructure.getVertex(face.faceVertices[0]);
-        const Vector3& facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex);
+        const Vector3 facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex) * mScale;
         decimal denom = faceNormal.dot(direction);
         decimal planeD = faceNormal.dot(facePoint);
         decimal dist = planeD -  faceNormal.dot(ray.point1);
@@ -192,7 +192,7 @@ bool ConvexMeshShape::testPointInside(const Vector3& localPoint, Collider* /*col
         const HalfEdgeStructure::Face& face = halfEdgeStructure.getFace(f);
         const Vector3& faceNormal = getFaceNormal(f);
         const HalfEdgeStructure::Vertex& faceVertex = halfEdgeStructure.getVertex(face.faceVertices[0]);
-        const Vector3& facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex);
+        const Vector3 facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex) * mScale;
 
         // If the point is out of the face plane, it is outside of the convex mesh
         if (computePointToPlaneDistance(localPoint, faceNormal, facePoint) > decimal(0.0)) return false;
-- 
2.43.0


From 8eff29b1d063971a8e4a0e39d21ce142a58f472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:22 +0000
Subject: [PATCH 04/81] fix: accept convex meshes that do not contain their
 local-space origin

The assertion that the support value is never negative aborted debug builds
for a valid convex mesh placed away from the origin of its local-space.
---
 src/collision/shapes/ConvexMeshShape.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/collision/shapes/ConvexMeshShape.cpp b/src/collision/shapes/ConvexMeshShape.cpp
index af4bc63..6e6946d 100644
--- a/src/collision/shapes/ConvexMeshShape.cpp
+++ b/src/collision/shapes/ConvexMeshShape.cpp
@@ -95,8 +95,6 @@ Vector3 ConvexMeshShape::getLocalSupportPointWithoutMargin(const Vector3& direct
         }
     }
 
-    assert(maxDotProduct >= decimal(0.0));
-
     // Return the vertex with the largest dot product in the support direction
     return mConvexMesh->getVertex(indexMaxDotProduct) * mScale;
 }
-- 
2.43.0


From ffe4b983bda734238c033cbfbb7fc0910d754ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:17 +0000
Subject: [PATCH 05/81] fix: report the collision of overlapping polyhedra when
 the contact clipping misses the deepest point

---
 .../collision/shapes/ConvexPolyhedronShape.h  | 35 +++++++++++++++++--
 .../narrowphase/SAT/SATAlgorithm.cpp          | 32 ++++++++++++-----
 2 files changed, 56 insertions(+), 11 deletions(-)

diff --git a/include/reactphysics3d/collision/shapes/ConvexPolyhedronShape.h b/include/reactphysics3d/collision/shapes/ConvexPolyhedronShape.h
index 3c89130..7b1fbb5 100644
--- a/include/reactphysics3d/collision/shapes/ConvexPolyhedronShape.h
+++ b/include/reactphysics3d/collision/shapes/ConvexPolyhedronShape.h
@@ -101,9 +101,24 @@ RP3D_FORCE_INLINE bool ConvexPolyhedronShape::isPolyhedron() const {
 
 // Find and return the index of the polyhedron face with the most anti-parallel face
 // normal given a direction vector. This is used to find the incident face on
-// a polyhedron of a given reference face of another polyhedron
+// a polyhedron of a given reference face of another polyhedron. Only the faces that
+// contain the vertex of the polyhedron that is the furthest in the opposite direction
+// are considered. Otherwise, the face might not contain the deepest point of the polyhedron
 RP3D_FORCE_INLINE uint32 ConvexPolyhedronShape::findMostAntiParallelFace(const Vector3& direction) const {
 
+    // Find the vertex that is the furthest in the opposite direction
+    decimal minVertexDotProduct = DECIMAL_LARGEST;
+    uint32 extremeVertex = 0;
+    const uint32 nbVertices = getNbVertices();
+    for (uint32 i=0; i < nbVertices; i++) {
+
+        const decimal dotProduct = getVertexPosition(i).dot(direction);
+        if (dotProduct < minVertexDotProduct) {
+            minVertexDotProduct = dotProduct;
+            extremeVertex = i;
+        }
+    }
+
     decimal minDotProduct = DECIMAL_LARGEST;
     uint32 mostAntiParallelFace = 0;
 
@@ -114,8 +129,22 @@ RP3D_FORCE_INLINE uint32 ConvexPolyhedronShape::findMostAntiParallelFace(const V
         // Get the face normal
         const decimal dotProduct = getFaceNormal(i).dot(direction);
         if (dotProduct < minDotProduct) {
-            minDotProduct = dotProduct;
-            mostAntiParallelFace = i;
+
+            // Check that the face contains the extreme vertex
+            const Array<uint32>& faceVertices = getFace(i).faceVertices;
+            bool containsExtremeVertex = false;
+            const uint32 nbFaceVertices = static_cast<uint32>(faceVertices.size());
+            for (uint32 v=0; v < nbFaceVertices; v++) {
+                if (faceVertices[v] == extremeVertex) {
+                    containsExtremeVertex = true;
+                    break;
+                }
+            }
+
+            if (containsExtremeVertex) {
+                minDotProduct = dotProduct;
+                mostAntiParallelFace = i;
+            }
         }
     }
 
diff --git a/src/collision/narrowphase/SAT/SATAlgorithm.cpp b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
index 841f190..d86a11e 100644
--- a/src/collision/narrowphase/SAT/SATAlgorithm.cpp
+++ b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
@@ -832,16 +832,32 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                                                                                 polyhedron2, polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1,
                                                                                 minFaceIndex, narrowPhaseInfoBatch, batchIndex);
 
-            // There should be clipping points here. If it is not the case, it might be
-            // because of a numerical issue
-            if (!contactsFound) {
+            // The clipping can be empty because face normals are favored over edges cross products when we look for
+            // the minimum penetration axis (the deepest point might be slightly outside of the reference face). In this
+            // case the shapes are still overlapping and we use the deepest point of the incident polyhedron as contact point
+            if (!contactsFound && narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
 
-                lastFrameCollisionInfo->satIsAxisFacePolyhedron1 = isMinPenetrationFaceNormalPolyhedron1;
-                lastFrameCollisionInfo->satIsAxisFacePolyhedron2 = !isMinPenetrationFaceNormalPolyhedron1;
-                lastFrameCollisionInfo->satMinAxisFaceIndex = minFaceIndex;
+                const ConvexPolyhedronShape* referencePolyhedron = isMinPenetrationFaceNormalPolyhedron1 ? polyhedron1 : polyhedron2;
+                const ConvexPolyhedronShape* incidentPolyhedron = isMinPenetrationFaceNormalPolyhedron1 ? polyhedron2 : polyhedron1;
+                const Transform& referenceToIncident = isMinPenetrationFaceNormalPolyhedron1 ? polyhedron1ToPolyhedron2 : polyhedron2ToPolyhedron1;
+                const Transform& incidentToReference = isMinPenetrationFaceNormalPolyhedron1 ? polyhedron2ToPolyhedron1 : polyhedron1ToPolyhedron2;
 
-                // Return no collision
-                continue;
+                const Vector3 axisReferenceSpace = referencePolyhedron->getFaceNormal(minFaceIndex);
+                const Vector3 contactPointIncident = incidentPolyhedron->getLocalSupportPointWithoutMargin(-(referenceToIncident.getOrientation() * axisReferenceSpace));
+                const Vector3 contactPointReference = incidentToReference * contactPointIncident + minPenetrationDepth * axisReferenceSpace;
+                Vector3 contactPoint1 = isMinPenetrationFaceNormalPolyhedron1 ? contactPointReference : contactPointIncident;
+                Vector3 contactPoint2 = isMinPenetrationFaceNormalPolyhedron1 ? contactPointIncident : contactPointReference;
+
+                Vector3 normalWorld = isMinPenetrationFaceNormalPolyhedron1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform.getOrientation() * axisReferenceSpace :
+                                        -(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform.getOrientation() * axisReferenceSpace);
+
+                // Compute smooth triangle mesh contact if one of the two collision shapes is a triangle
+                TriangleShape::computeSmoothTriangleMeshContact(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1, narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2,
+                                                                contactPoint1, contactPoint2,
+                                                                narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform, narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform,
+                                                                minPenetrationDepth, normalWorld);
+
+                narrowPhaseInfoBatch.addContactPoint(batchIndex, normalWorld, minPenetrationDepth, contactPoint1, contactPoint2);
             }
 
             lastFrameCollisionInfo->satIsAxisFacePolyhedron1 = isMinPenetrationFaceNormalPolyhedron1;
-- 
2.43.0


From e9fb5d23236e9ed101b38d0f5fc81dcf443a5917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:57 +0000
Subject: [PATCH 06/81] fix: do not fail an assertion when an empty AABB tree
 is queried with a box

---
 src/collision/broadphase/DynamicAABBTree.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collision/broadphase/DynamicAABBTree.cpp b/src/collision/broadphase/DynamicAABBTree.cpp
index 5804567..234e08a 100644
--- a/src/collision/broadphase/DynamicAABBTree.cpp
+++ b/src/collision/broadphase/DynamicAABBTree.cpp
@@ -652,12 +652,12 @@ void DynamicAABBTree::reportAllShapesOverlappingWithAABB(const AABB& aabb, Array
         // Get the next node ID to visit
         const int32 nodeIDToVisit = stack.pop();
 
-        assert(nodeIDToVisit >= 0);
-        assert(nodeIDToVisit < mNbAllocatedNodes);
-
         // Skip it if it is a null node
         if (nodeIDToVisit == TreeNode::NULL_TREE_NODE) continue;
 
+        assert(nodeIDToVisit >= 0);
+        assert(nodeIDToVisit < mNbAllocatedNodes);
+
         // Get the corresponding node
         const TreeNode* nodeToVisit = mNodes + nodeIDToVisit;
 
-- 
2.43.0


From 7c78e2812b3fd36b5a2452f4431006e920b198a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 07/81] fix: update the broad-phase when the shape of a static
 or sleeping body is resized

---
 src/collision/Collider.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/collision/Collider.cpp b/src/collision/Collider.cpp
index 53bc137..873e7e7 100644
--- a/src/collision/Collider.cpp
+++ b/src/collision/Collider.cpp
@@ -210,6 +210,11 @@ unsigned short Collider::getCollideWithMaskBits() const {
 // Notify the collider that the size of the collision shape has been changed by the user
 void Collider::setHasCollisionShapeChangedSize(bool hasCollisionShapeChangedSize) {
     mBody->mWorld.mCollidersComponents.setHasCollisionShapeChangedSize(mEntity, hasCollisionShapeChangedSize);
+
+    // Notify the broad-phase about the new size (colliders of static and sleeping bodies are not updated by the simulation)
+    if (hasCollisionShapeChangedSize) {
+        mBody->mWorld.mCollisionDetection.updateCollider(mEntity);
+    }
 }
 
 // Set a new material for this rigid body
-- 
2.43.0


From a8e44dcc0273ee6fb7dbc99b4fcbe1f97488b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:55 +0000
Subject: [PATCH 08/81] fix: keep the items of a deque when it is copied or
 assigned

---
 include/reactphysics3d/containers/Deque.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/reactphysics3d/containers/Deque.h b/include/reactphysics3d/containers/Deque.h
index 2a7977b..e263da6 100644
--- a/include/reactphysics3d/containers/Deque.h
+++ b/include/reactphysics3d/containers/Deque.h
@@ -278,6 +278,9 @@ class Deque {
             // Allocate memory
             reserve(deque.mCapacity);
 
+            // Store the items at the same location in the buffer
+            mFirstItemIndex = deque.mFirstItemIndex;
+
             if (deque.mSize > 0) {
 
                 // Add the items into the deque
@@ -465,6 +468,9 @@ class Deque {
 
                 if (deque.mSize > 0) {
 
+                    // Make sure that all the items fit in the buffer
+                    mFirstItemIndex = (mCapacity - deque.mSize) / 2;
+
                     // Add the items into the deque
                     for(uint64 i=0; i < deque.mSize; i++) {
 
-- 
2.43.0


From 936046197094bb7ba43f66e4241b7f40977a1d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:55 +0000
Subject: [PATCH 09/81] fix: forget the free entries of a set or map whose
 memory is released by clear()

---
 include/reactphysics3d/containers/Map.h | 1 +
 include/reactphysics3d/containers/Set.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/reactphysics3d/containers/Map.h b/include/reactphysics3d/containers/Map.h
index 4aaee4b..e21a918 100755
--- a/include/reactphysics3d/containers/Map.h
+++ b/include/reactphysics3d/containers/Map.h
@@ -520,6 +520,7 @@ class Map {
 
                 mNbAllocatedEntries = 0;
                 mHashSize = 0;
+                mFreeIndex = INVALID_INDEX;
             }
 
             mNbEntries = 0;
diff --git a/include/reactphysics3d/containers/Set.h b/include/reactphysics3d/containers/Set.h
index ea894ab..aae3134 100755
--- a/include/reactphysics3d/containers/Set.h
+++ b/include/reactphysics3d/containers/Set.h
@@ -519,6 +519,7 @@ class Set {
 
                 mNbAllocatedEntries = 0;
                 mHashSize = 0;
+                mFreeIndex = INVALID_INDEX;
             }
 
             mNbEntries = 0;
-- 
2.43.0


From 12b23d9d3c284682416a129e9e34456ba35dfb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:55 +0000
Subject: [PATCH 10/81] fix: destruct the items of a stack that grows and of a
 linked list that is reset

---
 include/reactphysics3d/containers/LinkedList.h | 1 +
 include/reactphysics3d/containers/Stack.h      | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/include/reactphysics3d/containers/LinkedList.h b/include/reactphysics3d/containers/LinkedList.h
index 3910738..8a723d1 100644
--- a/include/reactphysics3d/containers/LinkedList.h
+++ b/include/reactphysics3d/containers/LinkedList.h
@@ -117,6 +117,7 @@ RP3D_FORCE_INLINE void LinkedList<T>::reset() {
     ListElement* element = mListHead;
     while (element != nullptr) {
         ListElement* nextElement = element->next;
+        element->~ListElement();
         mAllocator.release(element, mElementAllocationSize);
         element = nextElement;
     }
diff --git a/include/reactphysics3d/containers/Stack.h b/include/reactphysics3d/containers/Stack.h
index cdbe26f..98a25e8 100644
--- a/include/reactphysics3d/containers/Stack.h
+++ b/include/reactphysics3d/containers/Stack.h
@@ -74,6 +74,11 @@ class Stack {
 
                     // Copy the previous items in the new array
                     std::uninitialized_copy(mArray, mArray + mNbElements, newArray);
+
+                    // Destruct the previous items
+                    for (uint64 i=0; i < mNbElements; i++) {
+                        mArray[i].~T();
+                    }
                 }
 
                 // Release memory of the previous array
-- 
2.43.0


From f68a17eee3fb156a84a4e1817a291a73f164e1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:49 +0000
Subject: [PATCH 11/81] fix: do not miss a box with a ray that lies exactly in
 the plane of one of its faces

---
 .../reactphysics3d/collision/shapes/AABB.h    | 38 +++++++++----------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/include/reactphysics3d/collision/shapes/AABB.h b/include/reactphysics3d/collision/shapes/AABB.h
index e180706..f09b28d 100644
--- a/include/reactphysics3d/collision/shapes/AABB.h
+++ b/include/reactphysics3d/collision/shapes/AABB.h
@@ -284,34 +284,32 @@ RP3D_FORCE_INLINE AABB AABB::createAABBForTriangle(const Vector3* trianglePoints
 // Return true if the ray intersects the AABB
 RP3D_FORCE_INLINE bool AABB::testRayIntersect(const Vector3& rayOrigin, const Vector3& rayDirectionInverse, decimal rayMaxFraction) const {
 
-    // This algorithm relies on the IEE floating point properties (division by zero). If the rayDirection is zero, rayDirectionInverse and
-    // therfore t1 and t2 will be +-INFINITY. If the i coordinate of the ray's origin is inside the AABB (mMinCoordinates[i] < rayOrigin[i] < mMaxCordinates[i)), we have
-    // t1 = -t2 = +- INFINITY. Since max(n, -INFINITY) = min(n, INFINITY) = n for all n, tMin and tMax will stay unchanged. Secondly, if the i
-    // coordinate of the ray's origin is outside the box (rayOrigin[i] < mMinCoordinates[i] or rayOrigin[i] > mMaxCoordinates[i]) we have
-    // t1 = t2 = +- INFINITY and therefore either tMin = +INFINITY or tMax = -INFINITY. One of those values will stay until the end and make the
-    // method to return false. Unfortunately, if the ray lies exactly on a slab (rayOrigin[i] = mMinCoordinates[i] or rayOrigin[i] = mMaxCoordinates[i]) we
-    // have t1 = (mMinCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i] = 0 * INFINITY = NaN which is a problem for the remaining of the algorithm.
-    // This will cause the method to return true when the ray is not intersecting the AABB and therefore cause to traverse more nodes than necessary in
-    // the BVH tree. Because this should be rare, it is not really a big issue.
+    // For each slab, the interval of the ray that is inside the slab is intersected with the interval that is inside the previous ones. If the
+    // ray is parallel to a slab (the i coordinate of rayDirectionInverse is +-INFINITY), we only need to know if its origin is inside the slab
+    // because the products (mMinCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i] would be NaN for a ray that lies exactly on the slab.
     // Reference: https://tavianator.com/2011/ray_box.html
 
-    decimal t1 = (mMinCoordinates[0] - rayOrigin[0]) * rayDirectionInverse[0];
-    decimal t2 = (mMaxCoordinates[0] - rayOrigin[0]) * rayDirectionInverse[0];
+    decimal tMin = decimal(0.0);
+    decimal tMax = rayMaxFraction;
+
+    for (int i = 0; i < 3; i++) {
 
-    decimal tMin = std::min(t1, t2);
-    decimal tMax = std::max(t1, t2);
-    tMax = std::min(tMax, rayMaxFraction);
+        // If the ray is parallel to the slab
+        if (std::isinf(rayDirectionInverse[i])) {
 
-    for (int i = 1; i < 3; i++) {
+            if (rayOrigin[i] < mMinCoordinates[i] || rayOrigin[i] > mMaxCoordinates[i]) return false;
+        }
+        else {
 
-        t1 = (mMinCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i];
-        t2 = (mMaxCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i];
+            const decimal t1 = (mMinCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i];
+            const decimal t2 = (mMaxCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i];
 
-        tMin = std::max(tMin, std::min(t1, t2));
-        tMax = std::min(tMax, std::max(t1, t2));
+            tMin = std::max(tMin, std::min(t1, t2));
+            tMax = std::min(tMax, std::max(t1, t2));
+        }
     }
 
-    return tMax >= std::max(tMin, decimal(0.0));
+    return tMax >= tMin;
 }
 
 // Compute the intersection of a ray and the AABB
-- 
2.43.0


From 5a9ae0a57dd8fb5c779a7d83d7e45b7beee6f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:20 +0000
Subject: [PATCH 12/81] fix: do not fail an assertion when a vector is divided
 by negative numbers

---
 include/reactphysics3d/mathematics/Vector2.h |  8 ++++----
 include/reactphysics3d/mathematics/Vector3.h | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/reactphysics3d/mathematics/Vector2.h b/include/reactphysics3d/mathematics/Vector2.h
index 27cbd13..03af223 100644
--- a/include/reactphysics3d/mathematics/Vector2.h
+++ b/include/reactphysics3d/mathematics/Vector2.h
@@ -261,7 +261,7 @@ RP3D_FORCE_INLINE Vector2& Vector2::operator*=(decimal number) {
 
 // Overloaded operator for division by a number with assignment
 RP3D_FORCE_INLINE Vector2& Vector2::operator/=(decimal number) {
-    assert(number > std::numeric_limits<decimal>::epsilon());
+    assert(std::abs(number) > std::numeric_limits<decimal>::epsilon());
     x /= number;
     y /= number;
     return *this;
@@ -304,14 +304,14 @@ RP3D_FORCE_INLINE Vector2 operator*(const Vector2& vector1, const Vector2& vecto
 
 // Overloaded operator for division by a number
 RP3D_FORCE_INLINE Vector2 operator/(const Vector2& vector, decimal number) {
-    assert(number > MACHINE_EPSILON);
+    assert(std::abs(number) > MACHINE_EPSILON);
     return Vector2(vector.x / number, vector.y / number);
 }
 
 // Overload operator for division between two vectors
 RP3D_FORCE_INLINE Vector2 operator/(const Vector2& vector1, const Vector2& vector2) {
-    assert(vector2.x > MACHINE_EPSILON);
-    assert(vector2.y > MACHINE_EPSILON);
+    assert(std::abs(vector2.x) > MACHINE_EPSILON);
+    assert(std::abs(vector2.y) > MACHINE_EPSILON);
     return Vector2(vector1.x / vector2.x, vector1.y / vector2.y);
 }
 
diff --git a/include/reactphysics3d/mathematics/Vector3.h b/include/reactphysics3d/mathematics/Vector3.h
index 80a4727..fffbfe8 100644
--- a/include/reactphysics3d/mathematics/Vector3.h
+++ b/include/reactphysics3d/mathematics/Vector3.h
@@ -292,7 +292,7 @@ RP3D_FORCE_INLINE Vector3& Vector3::operator*=(decimal number) {
 
 // Overloaded operator for division by a number with assignment
 RP3D_FORCE_INLINE Vector3& Vector3::operator/=(decimal number) {
-    assert(number > std::numeric_limits<decimal>::epsilon());
+    assert(std::abs(number) > std::numeric_limits<decimal>::epsilon());
     x /= number;
     y /= number;
     z /= number;
@@ -331,15 +331,15 @@ RP3D_FORCE_INLINE Vector3 operator*(const Vector3& vector, decimal number) {
 
 // Overloaded operator for division by a number
 RP3D_FORCE_INLINE Vector3 operator/(const Vector3& vector, decimal number) {
-    assert(number > MACHINE_EPSILON);
+    assert(std::abs(number) > MACHINE_EPSILON);
     return Vector3(vector.x / number, vector.y / number, vector.z / number);
 }
 
 // Overload operator for division between two vectors
 RP3D_FORCE_INLINE Vector3 operator/(const Vector3& vector1, const Vector3& vector2) {
-    assert(vector2.x > MACHINE_EPSILON);
-    assert(vector2.y > MACHINE_EPSILON);
-    assert(vector2.z > MACHINE_EPSILON);
+    assert(std::abs(vector2.x) > MACHINE_EPSILON);
+    assert(std::abs(vector2.y) > MACHINE_EPSILON);
+    assert(std::abs(vector2.z) > MACHINE_EPSILON);
     return Vector3(vector1.x / vector2.x, vector1.y / vector2.y, vector1.z / vector2.z);
 }
 
-- 
2.43.0


From b12cc5905a527b09b915b0442e9d27c7bd1dd8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:37 +0000
Subject: [PATCH 13/81] fix: do not fail an assertion when a collision query
 meets a trigger

---
 src/systems/CollisionDetectionSystem.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index d2a3b83..84ca4e9 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -494,12 +494,15 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
 
         NarrowPhaseAlgorithmType algorithmType = mOverlappingPairs.mConvexPairs[pairIndex].narrowPhaseAlgorithmType;
 
+        // Contacts are never reported for a trigger
+        const bool isTriggerPair = mCollidersComponents.mIsTrigger[collider1Index] || mCollidersComponents.mIsTrigger[collider2Index];
+
         // No middle-phase is necessary, simply create a narrow phase info
         // for the narrow-phase collision detection
         narrowPhaseInput.addNarrowPhaseTest(pairId, collider1Entity, collider2Entity, collisionShape1, collisionShape2,
                                                   mCollidersComponents.mLocalToWorldTransforms[collider1Index],
                                                   mCollidersComponents.mLocalToWorldTransforms[collider2Index],
-                                                  algorithmType, reportContacts, &mOverlappingPairs.mConvexPairs[pairIndex].lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
+                                                  algorithmType, reportContacts && !isTriggerPair, &mOverlappingPairs.mConvexPairs[pairIndex].lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
 
     }
 
@@ -1027,7 +1030,7 @@ void CollisionDetectionSystem::createSnapshotContacts(Array<ContactPair>& contac
     for (uint32 p=0; p < nbContactPairs; p++) {
 
         ContactPair& contactPair = contactPairs[p];
-        assert(contactPair.nbPotentialContactManifolds > 0);
+        assert(contactPair.isTrigger || contactPair.nbPotentialContactManifolds > 0);
 
         contactPair.contactManifoldsIndex = static_cast<uint32>(contactManifolds.size());
         contactPair.nbContactManifolds = contactPair.nbPotentialContactManifolds;
-- 
2.43.0


From c1cd7ccb932150f2dbb0dbb391c555f4ac10adde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:03 +0000
Subject: [PATCH 14/81] fix: ignore the colliders that are no world query
 colliders in the queries of a single body

---
 src/systems/CollisionDetectionSystem.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 84ca4e9..8215b63 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -489,6 +489,9 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
         assert(mCollidersComponents.getBroadPhaseId(collider2Entity) != -1);
         assert(mCollidersComponents.getBroadPhaseId(collider1Entity) != mCollidersComponents.getBroadPhaseId(collider2Entity));
 
+        // Only test the colliders that take part in the world queries
+        if (!mCollidersComponents.mIsWorldQueryCollider[collider1Index] || !mCollidersComponents.mIsWorldQueryCollider[collider2Index]) continue;
+
         CollisionShape* collisionShape1 = mCollidersComponents.mCollisionShapes[collider1Index];
         CollisionShape* collisionShape2 = mCollidersComponents.mCollisionShapes[collider2Index];
 
@@ -517,6 +520,10 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
         assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider2) != -1);
         assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider1) != mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider2));
 
+        // Only test the colliders that take part in the world queries
+        if (!mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConcavePairs[pairIndex].collider1) ||
+            !mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConcavePairs[pairIndex].collider2)) continue;
+
         computeConvexVsConcaveMiddlePhase(mOverlappingPairs.mConcavePairs[pairIndex], mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, reportContacts);
     }
 }
-- 
2.43.0


From fc282129dee319cf6e6b11a92e8765708c11a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:14 +0000
Subject: [PATCH 15/81] fix: do not fail an assertion when a collider of a
 disabled overlapping pair moves

---
 include/reactphysics3d/engine/OverlappingPairs.h | 13 ++++---------
 src/engine/OverlappingPairs.cpp                  |  4 ++++
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/reactphysics3d/engine/OverlappingPairs.h b/include/reactphysics3d/engine/OverlappingPairs.h
index b1c0ed3..436bb2b 100644
--- a/include/reactphysics3d/engine/OverlappingPairs.h
+++ b/include/reactphysics3d/engine/OverlappingPairs.h
@@ -458,15 +458,10 @@ RP3D_FORCE_INLINE bodypair OverlappingPairs::computeBodiesIndexPair(Entity body1
 // Set if we need to test a given pair for overlap
 RP3D_FORCE_INLINE void OverlappingPairs::setNeedToTestOverlap(uint64 pairId, bool needToTestOverlap) {
 
-    assert(mMapConvexPairIdToPairIndex.containsKey(pairId) || mMapConcavePairIdToPairIndex.containsKey(pairId));
-
-    auto it = mMapConvexPairIdToPairIndex.find(pairId);
-    if (it != mMapConvexPairIdToPairIndex.end()) {
-        mConvexPairs[static_cast<uint32>(it->second)].needToTestOverlap = needToTestOverlap;
-    }
-    else {
-        mConcavePairs[static_cast<uint32>(mMapConcavePairIdToPairIndex[pairId])].needToTestOverlap = needToTestOverlap;
-    }
+    // Note that the pair might be disabled
+    OverlappingPair* overlappingPair = getOverlappingPair(pairId);
+    assert(overlappingPair != nullptr);
+    overlappingPair->needToTestOverlap = needToTestOverlap;
 }
 
 // Return a reference to an overlapping pair
diff --git a/src/engine/OverlappingPairs.cpp b/src/engine/OverlappingPairs.cpp
index 4f94da2..59026d8 100644
--- a/src/engine/OverlappingPairs.cpp
+++ b/src/engine/OverlappingPairs.cpp
@@ -316,6 +316,7 @@ void OverlappingPairs::enableConvexPairWithIndex(uint64 pairIndex) {
                             pair->narrowPhaseAlgorithmType, true);
     mConvexPairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mConvexPairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
+    mConvexPairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
     // Remove the previous overlapping pair from the convex array
     removeDisabledConvexPairWithIndex(pairIndex, false);
@@ -340,6 +341,7 @@ void OverlappingPairs::disableConvexPairWithIndex(uint64 pairIndex) {
                             pair->narrowPhaseAlgorithmType, false);
     mDisabledConvexPairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mDisabledConvexPairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
+    mDisabledConvexPairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
     // Remove the previous overlapping pair from the convex array
     removeConvexPairWithIndex(pairIndex, false);
@@ -364,6 +366,7 @@ void OverlappingPairs::enableConcavePairWithIndex(uint64 pairIndex) {
                             pair->narrowPhaseAlgorithmType, pair->isShape1Convex, mPoolAllocator, mHeapAllocator, true);
     mConcavePairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mConcavePairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
+    mConcavePairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
     // Remove the previous overlapping pair from the concave array
     removeDisabledConcavePairWithIndex(pairIndex, false);
@@ -388,6 +391,7 @@ void OverlappingPairs::disableConcavePairWithIndex(uint64 pairIndex) {
                             pair->narrowPhaseAlgorithmType, pair->isShape1Convex, mPoolAllocator, mHeapAllocator, false, false);
     mDisabledConcavePairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mDisabledConcavePairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
+    mDisabledConcavePairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
     // Remove the previous overlapping pair from the concave array
     removeConcavePairWithIndex(pairIndex, false);
-- 
2.43.0


From 851661f1a74f5f3aae7d0cd055d006a3c15e645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:12 +0000
Subject: [PATCH 16/81] fix: do not fail an assertion when a body with disabled
 overlapping pairs is put to sleep or made static

---
 src/body/RigidBody.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 7018701..9104301 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -1138,8 +1138,8 @@ void RigidBody::checkForDisabledOverlappingPairs() {
             const bool isBody1Disabled = mWorld.mRigidBodyComponents.getIsEntityDisabled(body1Entity);
             const bool isBody2Disabled = mWorld.mRigidBodyComponents.getIsEntityDisabled(body2Entity);
 
-            // If both bodies of the pair are disabled, we disable the overlapping pair
-            if (isBody1Disabled && isBody2Disabled) {
+            // If both bodies of the pair are disabled, we disable the overlapping pair (if it is not disabled yet)
+            if (pair->isEnabled && isBody1Disabled && isBody2Disabled) {
 
                 mWorld.mCollisionDetection.disableOverlappingPair(overlappingPairs[j]);
             }
-- 
2.43.0


From 2bd1def5b92c3acb51fd931fadb88c5aa0acd563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:35 +0000
Subject: [PATCH 17/81] fix: do not keep the lost contact pairs in memory that
 is recycled at the end of a frame

---
 src/systems/CollisionDetectionSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 8215b63..55eeaa3 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -66,7 +66,7 @@ CollisionDetectionSystem::CollisionDetectionSystem(PhysicsWorld* world, Collider
                      mNarrowPhaseInput(mMemoryManager.getSingleFrameAllocator(), mOverlappingPairs), mPotentialContactPoints(mMemoryManager.getSingleFrameAllocator()),
                      mPotentialContactManifolds(mMemoryManager.getSingleFrameAllocator()), mContactPairs1(mMemoryManager.getPoolAllocator()),
                      mContactPairs2(mMemoryManager.getPoolAllocator()), mPreviousContactPairs(&mContactPairs1), mCurrentContactPairs(&mContactPairs2),
-                     mLostContactPairs(mMemoryManager.getSingleFrameAllocator()), mPreviousMapPairIdToContactPairIndex(mMemoryManager.getHeapAllocator()),
+                     mLostContactPairs(mMemoryManager.getHeapAllocator()), mPreviousMapPairIdToContactPairIndex(mMemoryManager.getHeapAllocator()),
                      mContactManifolds1(mMemoryManager.getPoolAllocator()), mContactManifolds2(mMemoryManager.getPoolAllocator()),
                      mPreviousContactManifolds(&mContactManifolds1), mCurrentContactManifolds(&mContactManifolds2),
                      mContactPoints1(mMemoryManager.getPoolAllocator()), mContactPoints2(mMemoryManager.getPoolAllocator()),
-- 
2.43.0


From 99d212b9d3b4a98b6989202667588d270e75982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:35 +0000
Subject: [PATCH 18/81] fix: do not report the lost contacts of a collider that
 has been removed

---
 src/systems/CollisionDetectionSystem.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 55eeaa3..03bb79c 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -1186,6 +1186,14 @@ void CollisionDetectionSystem::removeCollider(Collider* collider) {
         removeOverlappingPair(overlappingPairs[0], false);
     }
 
+    // Remove the lost contact pairs involving this collider that have not been reported yet
+    for (uint64 i=0; i < mLostContactPairs.size(); i++) {
+        if (mLostContactPairs[i].collider1Entity == collider->getEntity() || mLostContactPairs[i].collider2Entity == collider->getEntity()) {
+            mLostContactPairs.removeAt(i);
+            i--;
+        }
+    }
+
     mMapBroadPhaseIdToColliderEntity.remove(colliderBroadPhaseId);
 
     // Remove the body from the broad-phase
-- 
2.43.0


From f16ecb9d9f55a7cac9bf9f82d42c6e4cba812f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:35 +0000
Subject: [PATCH 19/81] fix: awake a body that is activated again and keep an
 inactive body disabled when its type changes

---
 src/body/RigidBody.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 9104301..0445dc0 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -108,8 +108,8 @@ void RigidBody::setType(BodyType type) {
         mWorld.mRigidBodyComponents.setInverseInertiaTensorLocal(mEntity, inverseInertiaTensorLocal);
     }
 
-    // Disable/Enable the body if necessary (components of static bodies are disabled)
-    mWorld.setBodyDisabled(mEntity, type == BodyType::STATIC);
+    // Disable/Enable the body if necessary (components of static and inactive bodies are disabled)
+    mWorld.setBodyDisabled(mEntity, type == BodyType::STATIC || !mWorld.mBodyComponents.getIsActive(mEntity));
 
     // Awake the body
     setIsSleeping(false);
@@ -1013,10 +1013,7 @@ void RigidBody::setIsSleeping(bool isSleeping) {
     if (mWorld.mRigidBodyComponents.getBodyType(mEntity) == BodyType::STATIC) return;
 
     // If the body is not active, do nothing (it is sleeping)
-    if (!mWorld.mBodyComponents.getIsActive(mEntity)) {
-        assert(isBodySleeping);
-        return;
-    }
+    if (!mWorld.mBodyComponents.getIsActive(mEntity)) return;
 
     if (isSleeping) {
         mWorld.mRigidBodyComponents.setSleepTime(mEntity, decimal(0.0));
@@ -1187,7 +1184,16 @@ void RigidBody::setIsActive(bool isActive) {
     // If the state does not change
     if (mWorld.mBodyComponents.getIsActive(mEntity) == isActive) return;
 
-    setIsSleeping(!isActive);
+    // Note that only an active body can be put to sleep or awaken
+    if (!isActive) setIsSleeping(true);
 
     Body::setIsActive(isActive);
+
+    if (isActive) {
+
+        setIsSleeping(false);
+
+        // Make sure the body is enabled (components of static bodies are disabled)
+        mWorld.setBodyDisabled(mEntity, mWorld.mRigidBodyComponents.getBodyType(mEntity) == BodyType::STATIC);
+    }
 }
-- 
2.43.0


From 569c3f80143dec974792f49b44ece8550fea67a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:33 +0000
Subject: [PATCH 20/81] fix: destroy the joints of the right body when a
 sleeping body is destroyed

---
 src/engine/PhysicsWorld.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 80a425c..4d13ab2 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -454,9 +454,9 @@ void PhysicsWorld::destroyRigidBody(RigidBody* rigidBody) {
     rigidBody->removeAllColliders();
 
     // Destroy all the joints in which the rigid body to be destroyed is involved
-    const Array<Entity>& joints = mRigidBodyComponents.getJoints(rigidBody->getEntity());
-    while (joints.size() > 0) {
-        destroyJoint(mJointsComponents.getJoint(joints[0]));
+    // Note that the components might be moved when a joint is destroyed (because the bodies are awaken)
+    while (mRigidBodyComponents.getJoints(rigidBody->getEntity()).size() > 0) {
+        destroyJoint(mJointsComponents.getJoint(mRigidBodyComponents.getJoints(rigidBody->getEntity())[0]));
     }
 
     // Destroy the corresponding entity and its components
-- 
2.43.0


From 7be4bb1286fc3a677ad610d59e821e91efc242a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:50 +0000
Subject: [PATCH 21/81] fix: awake the neighbors of the right body when a
 collider of a body is removed

---
 src/body/RigidBody.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 0445dc0..3bbc532 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -1081,7 +1081,8 @@ void RigidBody::enableOverlappingPairs() {
 void RigidBody::awakeNeighborDisabledBodies() {
 
     // For each collider of the body
-    const Array<Entity>& colliderEntities = mWorld.mBodyComponents.getColliders(mEntity);
+    // Note that we need to copy the array because the body components might be moved when a neighbor body is awaken
+    const Array<Entity> colliderEntities = mWorld.mBodyComponents.getColliders(mEntity);
     for (uint32 i=0; i < colliderEntities.size(); i++) {
 
         // Get the currently overlapping pairs for this collider
-- 
2.43.0


From b98422c52b1cc7286cee61d9cb346412ff675c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:33 +0000
Subject: [PATCH 22/81] fix: keep the headers of the heap allocator memory
 units aligned

---
 src/memory/HeapAllocator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/memory/HeapAllocator.cpp b/src/memory/HeapAllocator.cpp
index 171d8a2..4e8c4b2 100644
--- a/src/memory/HeapAllocator.cpp
+++ b/src/memory/HeapAllocator.cpp
@@ -129,8 +129,9 @@ void* HeapAllocator::allocate(size_t size) {
     // We cannot allocate zero bytes
     if (size == 0) return nullptr;
 
-    // Allocate a little bit more memory to make sure we can return an aligned address
-    const size_t totalSize = size + GLOBAL_ALIGNMENT;
+    // Allocate a little bit more memory to make sure we can return an aligned address. The size is a
+    // multiple of the alignment such that the header of the next memory unit is also properly aligned
+    const size_t totalSize = ((size + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT + GLOBAL_ALIGNMENT;
 
 #ifndef NDEBUG
         mNbTimesAllocateMethodCalled++;
-- 
2.43.0


From 3759b772cb782e725e134d65a6b39630e5412036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:33 +0000
Subject: [PATCH 23/81] fix: give back a block located just after the buffer of
 the single frame allocator

---
 src/memory/SingleFrameAllocator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/SingleFrameAllocator.cpp b/src/memory/SingleFrameAllocator.cpp
index 103305f..480b7af 100644
--- a/src/memory/SingleFrameAllocator.cpp
+++ b/src/memory/SingleFrameAllocator.cpp
@@ -119,7 +119,7 @@ void SingleFrameAllocator::release(void* pointer, size_t size) {
 
     // If allocated memory is not within the single frame allocation range
     char* p = static_cast<char*>(pointer);
-    if (p < mMemoryBufferStart || p > mMemoryBufferStart + mTotalSizeBytes) {
+    if (p < mMemoryBufferStart || p >= mMemoryBufferStart + mTotalSizeBytes) {
 
         // Use default deallocation
         mBaseAllocator.release(pointer, size);
-- 
2.43.0


From 0dda880229b891ba3e320d87a2229cbc7645c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:33 +0000
Subject: [PATCH 24/81] fix: allocate the memory of a height field with its own
 size

---
 src/engine/PhysicsCommon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/PhysicsCommon.cpp b/src/engine/PhysicsCommon.cpp
index fa536d6..b030554 100644
--- a/src/engine/PhysicsCommon.cpp
+++ b/src/engine/PhysicsCommon.cpp
@@ -484,7 +484,7 @@ HeightField* PhysicsCommon::createHeightField(int nbGridColumns, int nbGridRows,
                                               decimal integerHeightScale) {
 
     // Create the height-field
-    HeightField* heightField = new (mMemoryManager.allocate(MemoryManager::AllocationType::Pool, sizeof(TriangleMesh))) HeightField(mMemoryManager.getHeapAllocator(), mTriangleShapeHalfEdgeStructure);
+    HeightField* heightField = new (mMemoryManager.allocate(MemoryManager::AllocationType::Pool, sizeof(HeightField))) HeightField(mMemoryManager.getHeapAllocator(), mTriangleShapeHalfEdgeStructure);
 
     // Initialize the height-field
     bool isValid = heightField->init(nbGridColumns, nbGridRows, heightFieldData, dataType, messages,
-- 
2.43.0


From bb5c010dbc8b8d97dd6a00b40960f595309fad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:06 +0000
Subject: [PATCH 25/81] fix: overlap and collision queries do not change the
 data the simulation keeps between frames

---
 .../narrowphase/NarrowPhaseInfoBatch.h        | 17 ++++++++-
 .../systems/CollisionDetectionSystem.h        |  2 +-
 .../narrowphase/NarrowPhaseInfoBatch.cpp      | 12 ++++++
 src/systems/CollisionDetectionSystem.cpp      | 37 +++++++++++--------
 4 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/include/reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h b/include/reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h
index 505182c..24ca147 100644
--- a/include/reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h
+++ b/include/reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h
@@ -66,6 +66,9 @@ struct NarrowPhaseInfoBatch {
         /// Collision info of the previous frame
         LastFrameCollisionInfo* lastFrameCollisionInfo;
 
+        /// True if the collision info belongs to the batch (test that does not use the collision info of the overlapping pair)
+        bool isLastFrameInfoOwned;
+
         /// Memory allocator for the collision shape (Used to release TriangleShape memory in destructor)
         MemoryAllocator* collisionShapeAllocator;
 
@@ -96,8 +99,9 @@ struct NarrowPhaseInfoBatch {
         /// Constructor
         NarrowPhaseInfo(uint64 pairId, Entity collider1, Entity collider2, LastFrameCollisionInfo* lastFrameInfo, MemoryAllocator& shapeAllocator,
                              const Transform& shape1ToWorldTransform, const Transform& shape2ToWorldTransform, CollisionShape* shape1,
-                             CollisionShape* shape2, bool needToReportContacts)
+                             CollisionShape* shape2, bool needToReportContacts, bool isLastFrameInfoOwned)
                       : overlappingPairId(pairId), colliderEntity1(collider1), colliderEntity2(collider2), lastFrameCollisionInfo(lastFrameInfo),
+                         isLastFrameInfoOwned(isLastFrameInfoOwned),
                          collisionShapeAllocator(&shapeAllocator), shape1ToWorldTransform(shape1ToWorldTransform),
                          shape2ToWorldTransform(shape2ToWorldTransform), collisionShape1(shape1),
                         collisionShape2(shape2), reportContacts(needToReportContacts), isColliding(false), nbContactPoints(0) {
@@ -119,6 +123,9 @@ struct NarrowPhaseInfoBatch {
         /// TriangleShape allocated size
         static const size_t mTriangleShapeAllocatedSize;
 
+        /// Create a collision info without history (owned by the batch)
+        LastFrameCollisionInfo* createLastFrameInfo();
+
     public:
 
         /// For each collision test, we keep some meta data
@@ -162,8 +169,14 @@ RP3D_FORCE_INLINE void NarrowPhaseInfoBatch::addNarrowPhaseInfo(uint64 pairId, E
                                               CollisionShape* shape2, const Transform& shape1Transform, const Transform& shape2Transform,
                                               bool needToReportContacts, LastFrameCollisionInfo* lastFrameInfo, MemoryAllocator& shapeAllocator) {
 
+    // If there is no collision info of the previous frame to use (world query), we use a temporary one
+    const bool isLastFrameInfoOwned = lastFrameInfo == nullptr;
+    if (isLastFrameInfoOwned) {
+        lastFrameInfo = createLastFrameInfo();
+    }
+
     // Create a meta data object
-    narrowPhaseInfos.emplace(pairId, collider1, collider2, lastFrameInfo, shapeAllocator, shape1Transform, shape2Transform, shape1, shape2, needToReportContacts);
+    narrowPhaseInfos.emplace(pairId, collider1, collider2, lastFrameInfo, shapeAllocator, shape1Transform, shape2Transform, shape1, shape2, needToReportContacts, isLastFrameInfoOwned);
 }
 
 // Add a new contact point
diff --git a/include/reactphysics3d/systems/CollisionDetectionSystem.h b/include/reactphysics3d/systems/CollisionDetectionSystem.h
index ed91dc9..9383c45 100644
--- a/include/reactphysics3d/systems/CollisionDetectionSystem.h
+++ b/include/reactphysics3d/systems/CollisionDetectionSystem.h
@@ -233,7 +233,7 @@ class CollisionDetectionSystem {
 
         /// Compute the concave vs convex middle-phase algorithm for a given pair of bodies
         void computeConvexVsConcaveMiddlePhase(OverlappingPairs::ConcaveOverlappingPair& overlappingPair, MemoryAllocator& allocator,
-                                               NarrowPhaseInput& narrowPhaseInput, bool reportContacts);
+                                               NarrowPhaseInput& narrowPhaseInput, bool reportContacts, bool isWorldQuery);
 
         /// Swap the previous and current contacts arrays
         void swapPreviousAndCurrentContacts();
diff --git a/src/collision/narrowphase/NarrowPhaseInfoBatch.cpp b/src/collision/narrowphase/NarrowPhaseInfoBatch.cpp
index 06f13ee..364f66a 100644
--- a/src/collision/narrowphase/NarrowPhaseInfoBatch.cpp
+++ b/src/collision/narrowphase/NarrowPhaseInfoBatch.cpp
@@ -52,6 +52,12 @@ void NarrowPhaseInfoBatch::reserveMemory() {
     narrowPhaseInfos.reserve(mCachedCapacity);
 }
 
+// Create a collision info without history (owned by the batch)
+LastFrameCollisionInfo* NarrowPhaseInfoBatch::createLastFrameInfo() {
+
+    return new (mMemoryAllocator.allocate(sizeof(LastFrameCollisionInfo))) LastFrameCollisionInfo();
+}
+
 // Clear all the objects in the batch
 void NarrowPhaseInfoBatch::clear() {
 
@@ -60,6 +66,12 @@ void NarrowPhaseInfoBatch::clear() {
 
         assert(narrowPhaseInfos[i].nbContactPoints == 0);
 
+        // Release the temporary collision info
+        if (narrowPhaseInfos[i].isLastFrameInfoOwned) {
+            narrowPhaseInfos[i].lastFrameCollisionInfo->~LastFrameCollisionInfo();
+            mMemoryAllocator.release(narrowPhaseInfos[i].lastFrameCollisionInfo, sizeof(LastFrameCollisionInfo));
+        }
+
         // TODO OPTI : Better manage this
 
         // Release the memory of the TriangleShape (this memory was allocated in the
diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 03bb79c..3a4c517 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -351,7 +351,10 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
     narrowPhaseInput.reserveMemory();
 
     // Remove the obsolete last frame collision infos and mark all the others as obsolete
-    mOverlappingPairs.clearObsoleteLastFrameCollisionInfos();
+    // (a world query must not change the data that the simulation keeps between two frames)
+    if (!isWorldQuery) {
+        mOverlappingPairs.clearObsoleteLastFrameCollisionInfos();
+    }
 
     const uint32 nbEnabledColliderComponents = mCollidersComponents.getNbEnabledComponents();
 
@@ -386,7 +389,9 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
         const bool isCollider1SimulationColliderOrTrigger = isCollider1SimulationCollider || isCollider1Trigger;
         const bool isCollider2SimulationColliderOrTrigger = isCollider2SimulationCollider || isCollider2Trigger;
 
-        overlappingPair.collidingInCurrentFrame = false;
+        if (!isWorldQuery) {
+            overlappingPair.collidingInCurrentFrame = false;
+        }
 
         const bool isBody1Enabled = collider1Index < nbEnabledColliderComponents;
         const bool isBody2Enabled = collider2Index < nbEnabledColliderComponents;
@@ -406,7 +411,7 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
                 narrowPhaseInput.addNarrowPhaseTest(overlappingPair.pairID, collider1Entity, collider2Entity, collisionShape1, collisionShape2,
                                                     mCollidersComponents.mLocalToWorldTransforms[collider1Index],
                                                     mCollidersComponents.mLocalToWorldTransforms[collider2Index],
-                                                    algorithmType, reportContacts, &overlappingPair.lastFrameCollisionInfo,
+                                                    algorithmType, reportContacts, isWorldQuery ? nullptr : &overlappingPair.lastFrameCollisionInfo,
                                                     mMemoryManager.getSingleFrameAllocator());
             }
         }
@@ -438,7 +443,9 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
         const bool isCollider1SimulationColliderOrTrigger = isCollider1SimulationCollider || isCollider1Trigger;
         const bool isCollider2SimulationColliderOrTrigger = isCollider2SimulationCollider || isCollider2Trigger;
 
-        overlappingPair.collidingInCurrentFrame = false;
+        if (!isWorldQuery) {
+            overlappingPair.collidingInCurrentFrame = false;
+        }
 
         // Only test for collision for a world query and both colliders are world query colliders or
         // if it is not a world query and both colliders are either triggers or simulation colliders
@@ -451,7 +458,7 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
             // If it is not a world query, we make sure that the two bodies are enabled
             if (isWorldQuery || (!isWorldQuery && (isBody1Enabled || isBody2Enabled))) {
 
-                computeConvexVsConcaveMiddlePhase(overlappingPair, mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, needToReportContacts);
+                computeConvexVsConcaveMiddlePhase(overlappingPair, mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, needToReportContacts, isWorldQuery);
 
             }
         }
@@ -467,9 +474,6 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
     // Reserve memory for the narrow-phase input using cached capacity from previous frame
     narrowPhaseInput.reserveMemory();
 
-    // Remove the obsolete last frame collision infos and mark all the others as obsolete
-    mOverlappingPairs.clearObsoleteLastFrameCollisionInfos();
-
     // For each possible convex vs convex pair of bodies
     const uint64 nbConvexPairs = convexPairs.size();
     for (uint64 p=0; p < nbConvexPairs; p++) {
@@ -505,7 +509,7 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
         narrowPhaseInput.addNarrowPhaseTest(pairId, collider1Entity, collider2Entity, collisionShape1, collisionShape2,
                                                   mCollidersComponents.mLocalToWorldTransforms[collider1Index],
                                                   mCollidersComponents.mLocalToWorldTransforms[collider2Index],
-                                                  algorithmType, reportContacts && !isTriggerPair, &mOverlappingPairs.mConvexPairs[pairIndex].lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
+                                                  algorithmType, reportContacts && !isTriggerPair, nullptr, mMemoryManager.getSingleFrameAllocator());
 
     }
 
@@ -524,12 +528,13 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
         if (!mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConcavePairs[pairIndex].collider1) ||
             !mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConcavePairs[pairIndex].collider2)) continue;
 
-        computeConvexVsConcaveMiddlePhase(mOverlappingPairs.mConcavePairs[pairIndex], mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, reportContacts);
+        computeConvexVsConcaveMiddlePhase(mOverlappingPairs.mConcavePairs[pairIndex], mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, reportContacts, true);
     }
 }
 
 // Compute the concave vs convex middle-phase algorithm for a given pair of bodies
-void CollisionDetectionSystem::computeConvexVsConcaveMiddlePhase(OverlappingPairs::ConcaveOverlappingPair& overlappingPair, MemoryAllocator& allocator, NarrowPhaseInput& narrowPhaseInput, bool reportContacts) {
+void CollisionDetectionSystem::computeConvexVsConcaveMiddlePhase(OverlappingPairs::ConcaveOverlappingPair& overlappingPair, MemoryAllocator& allocator, NarrowPhaseInput& narrowPhaseInput,
+                                                                 bool reportContacts, bool isWorldQuery) {
 
     RP3D_PROFILE("CollisionDetectionSystem::computeConvexVsConcaveMiddlePhase()", mProfiler);
 
@@ -615,7 +620,7 @@ void CollisionDetectionSystem::computeConvexVsConcaveMiddlePhase(OverlappingPair
         }
 
         // Add a collision info for the two collision shapes into the overlapping pair (if not present yet)
-        LastFrameCollisionInfo* lastFrameInfo = overlappingPair.addLastFrameInfoIfNecessary(shape1->getId(), shape2->getId());
+        LastFrameCollisionInfo* lastFrameInfo = isWorldQuery ? nullptr : overlappingPair.addLastFrameInfoIfNecessary(shape1->getId(), shape2->getId());
 
         // Create a narrow phase info for the narrow-phase collision detection
         narrowPhaseInput.addNarrowPhaseTest(overlappingPair.pairID, collider1, collider2, shape1, shape2,
@@ -872,7 +877,7 @@ bool CollisionDetectionSystem::computeNarrowPhaseCollisionSnapshot(NarrowPhaseIn
         Array<ContactPoint> contactPoints(allocator);
 
         // Process all the potential contacts after narrow-phase collision
-        processAllPotentialContacts(narrowPhaseInput, true, potentialContactPoints, potentialContactManifolds, &contactPairs);
+        processAllPotentialContacts(narrowPhaseInput, false, potentialContactPoints, potentialContactManifolds, &contactPairs);
 
         // Reduce the number of contact points in the manifolds
         reducePotentialContactManifolds(&contactPairs, potentialContactManifolds, potentialContactPoints);
@@ -1245,8 +1250,10 @@ void CollisionDetectionSystem::processPotentialContacts(NarrowPhaseInfoBatch& na
             OverlappingPairs::OverlappingPair* overlappingPair = mOverlappingPairs.getOverlappingPair(pairId);
             assert(overlappingPair != nullptr);
 
-            overlappingPair->collidingInCurrentFrame = true;
-
+            // The state of the pair belongs to the simulation (it is not changed by the queries of the user)
+            if (updateLastFrameInfo) {
+                overlappingPair->collidingInCurrentFrame = true;
+            }
 
             const Entity collider1Entity = narrowPhaseInfoBatch.narrowPhaseInfos[i].colliderEntity1;
             const Entity collider2Entity = narrowPhaseInfoBatch.narrowPhaseInfos[i].colliderEntity2;
-- 
2.43.0


From 0ea5c0a220a47133ef136910bbbfe0202ecbf452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:48 +0000
Subject: [PATCH 26/81] fix: components release their buffer with the size it
 was allocated with

---
 src/components/BallAndSocketJointComponents.cpp | 2 +-
 src/components/BodyComponents.cpp               | 2 +-
 src/components/ColliderComponents.cpp           | 2 +-
 src/components/Components.cpp                   | 2 +-
 src/components/FixedJointComponents.cpp         | 2 +-
 src/components/HingeJointComponents.cpp         | 2 +-
 src/components/JointComponents.cpp              | 2 +-
 src/components/RigidBodyComponents.cpp          | 2 +-
 src/components/SliderJointComponents.cpp        | 2 +-
 src/components/TransformComponents.cpp          | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/components/BallAndSocketJointComponents.cpp b/src/components/BallAndSocketJointComponents.cpp
index 0850edb..8261bdc 100644
--- a/src/components/BallAndSocketJointComponents.cpp
+++ b/src/components/BallAndSocketJointComponents.cpp
@@ -122,7 +122,7 @@ void BallAndSocketJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newConeLimitACrossB, mConeLimitACrossB, mNbComponents * sizeof(Vector3));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/BodyComponents.cpp b/src/components/BodyComponents.cpp
index 8aae023..2f38a0a 100644
--- a/src/components/BodyComponents.cpp
+++ b/src/components/BodyComponents.cpp
@@ -82,7 +82,7 @@ void BodyComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newHasSimulationCollider, mHasSimulationCollider, mNbComponents * sizeof(bool));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/ColliderComponents.cpp b/src/components/ColliderComponents.cpp
index 7b0fefe..5d61fe8 100644
--- a/src/components/ColliderComponents.cpp
+++ b/src/components/ColliderComponents.cpp
@@ -111,7 +111,7 @@ void ColliderComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(materials, mMaterials, mNbComponents * sizeof(Material));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/Components.cpp b/src/components/Components.cpp
index a920a78..691a324 100644
--- a/src/components/Components.cpp
+++ b/src/components/Components.cpp
@@ -50,7 +50,7 @@ Components::~Components() {
         }
 
         // Size for the data of a single component (in bytes)
-        const size_t totalSizeBytes = mNbAllocatedComponents * mComponentDataSize;
+        const size_t totalSizeBytes = mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize;
 
         // Release the allocated memory
         mMemoryAllocator.release(mBuffer, totalSizeBytes);
diff --git a/src/components/FixedJointComponents.cpp b/src/components/FixedJointComponents.cpp
index 18ddf65..06b4ed0 100644
--- a/src/components/FixedJointComponents.cpp
+++ b/src/components/FixedJointComponents.cpp
@@ -111,7 +111,7 @@ void FixedJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newInitOrientationDifferenceInv, mInitOrientationDifferenceInv, mNbComponents * sizeof(Quaternion));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/HingeJointComponents.cpp b/src/components/HingeJointComponents.cpp
index 2bd3247..287f136 100644
--- a/src/components/HingeJointComponents.cpp
+++ b/src/components/HingeJointComponents.cpp
@@ -176,7 +176,7 @@ void HingeJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newMaxMotorTorque, mMaxMotorTorque, mNbComponents * sizeof(decimal));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/JointComponents.cpp b/src/components/JointComponents.cpp
index 571d567..15716e5 100644
--- a/src/components/JointComponents.cpp
+++ b/src/components/JointComponents.cpp
@@ -87,7 +87,7 @@ void JointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newIsAlreadyInIsland, mIsAlreadyInIsland, mNbComponents * sizeof(bool));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/RigidBodyComponents.cpp b/src/components/RigidBodyComponents.cpp
index 6b5a065..bee0d04 100644
--- a/src/components/RigidBodyComponents.cpp
+++ b/src/components/RigidBodyComponents.cpp
@@ -165,7 +165,7 @@ void RigidBodyComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newAngularLockAxisFactors, mAngularLockAxisFactors, mNbComponents * sizeof(Vector3));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/SliderJointComponents.cpp b/src/components/SliderJointComponents.cpp
index 9f8787f..3742a09 100644
--- a/src/components/SliderJointComponents.cpp
+++ b/src/components/SliderJointComponents.cpp
@@ -193,7 +193,7 @@ void SliderJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newR1PlusUCrossSliderAxis, mR1PlusUCrossSliderAxis, mNbComponents * sizeof(decimal));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/TransformComponents.cpp b/src/components/TransformComponents.cpp
index eb59fa2..a3ace0d 100644
--- a/src/components/TransformComponents.cpp
+++ b/src/components/TransformComponents.cpp
@@ -70,7 +70,7 @@ void TransformComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newEntities, mBodies, mNbComponents * sizeof(Entity));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
-- 
2.43.0


From 506d11a7655e2384bc508021d9d288fe67eeef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:48 +0000
Subject: [PATCH 27/81] fix: last frame collision infos are allocated with the
 size they are released with

---
 include/reactphysics3d/engine/OverlappingPairs.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/reactphysics3d/engine/OverlappingPairs.h b/include/reactphysics3d/engine/OverlappingPairs.h
index 436bb2b..2cae0ed 100644
--- a/include/reactphysics3d/engine/OverlappingPairs.h
+++ b/include/reactphysics3d/engine/OverlappingPairs.h
@@ -244,10 +244,7 @@ class OverlappingPairs {
                     auto it = lastFrameCollisionInfos.find(shapesId);
                     if (it == lastFrameCollisionInfos.end()) {
 
-                        // Make sure capacity is an integral multiple of alignment
-                        const size_t allocatedMemory = std::ceil(sizeof(LastFrameCollisionInfo) / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
-
-                        LastFrameCollisionInfo* lastFrameInfo = new (mPoolAllocator->allocate(allocatedMemory)) LastFrameCollisionInfo();
+                        LastFrameCollisionInfo* lastFrameInfo = new (mPoolAllocator->allocate(sizeof(LastFrameCollisionInfo))) LastFrameCollisionInfo();
 
                         // Add it into the map of collision infos
                         lastFrameCollisionInfos.add(Pair<uint64, LastFrameCollisionInfo*>(shapesId, lastFrameInfo));
@@ -275,11 +272,8 @@ class OverlappingPairs {
                             // Call the destructor
                             it->second->LastFrameCollisionInfo::~LastFrameCollisionInfo();
 
-                            // Make sure capacity is an integral multiple of alignment
-                            const size_t allocatedMemory = std::ceil(sizeof(LastFrameCollisionInfo) / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
-
                             // Release memory
-                            mPoolAllocator->release(it->second, allocatedMemory);
+                            mPoolAllocator->release(it->second, sizeof(LastFrameCollisionInfo));
 
                             it = lastFrameCollisionInfos.remove(it);
                         }
-- 
2.43.0


From 15d74132529a599d289452e721fd8dafda574fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:21 +0000
Subject: [PATCH 28/81] fix: deque used as a queue does not grow without bound

---
 include/reactphysics3d/containers/Deque.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/reactphysics3d/containers/Deque.h b/include/reactphysics3d/containers/Deque.h
index e263da6..693dc95 100644
--- a/include/reactphysics3d/containers/Deque.h
+++ b/include/reactphysics3d/containers/Deque.h
@@ -80,11 +80,26 @@ class Deque {
             return mBuffer[mFirstItemIndex + index];
         }
 
+        /// Make room at both ends of the buffer. If the buffer is less than half full, its capacity does not change (such
+        /// that the memory does not grow when items are only added at one end and removed at the other end).
+        void makeRoom() {
+
+            const bool isHalfFull = mSize >= mCapacity / 2;
+
+            reallocate(mCapacity == 0 ? GLOBAL_ALIGNMENT : (isHalfFull ? mCapacity * 2 : mCapacity));
+        }
+
         /// Add more chunks
         void reserve(uint64 capacity) {
 
             if (capacity <= mCapacity) return;
 
+            reallocate(capacity);
+        }
+
+        /// Move the items into a new buffer
+        void reallocate(uint64 capacity) {
+
             // Make sure capacity is an integral multiple of alignment
             capacity = std::ceil(capacity / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
 
@@ -92,7 +107,8 @@ class Deque {
             void* newMemory = mAllocator.allocate(capacity * sizeof(T));
             T* destination = static_cast<T*>(newMemory);
 
-            const uint64 newStartIndex = capacity / 2 - 1;
+            assert(mSize < capacity);
+            const uint64 newStartIndex = (capacity - mSize) / 2;
 
             if (mBuffer != nullptr) {
 
@@ -317,7 +333,7 @@ class Deque {
             // If we need to add the item in a another chunk
             if (mFirstItemIndex + mSize >= mCapacity) {
 
-                reserve(mCapacity == 0 ? GLOBAL_ALIGNMENT : mCapacity * 2);
+                makeRoom();
             }
 
             assert(mFirstItemIndex + mSize < mCapacity);
@@ -337,7 +353,7 @@ class Deque {
             // If we need to add the item in a another chunk
             if (mFirstItemIndex == 0) {
 
-                reserve(mCapacity == 0 ? GLOBAL_ALIGNMENT : mCapacity * 2);
+                makeRoom();
             }
 
             assert(mFirstItemIndex > 0);
-- 
2.43.0


From 0d87228751edb5a8fc4734e3728c91c5212d1882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 29/81] fix: initialize the shared tables of the pool
 allocators only once when they are created in several threads

---
 include/reactphysics3d/memory/PoolAllocator.h |  4 ++--
 src/memory/PoolAllocator.cpp                  | 11 +++++------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/reactphysics3d/memory/PoolAllocator.h b/include/reactphysics3d/memory/PoolAllocator.h
index 7898545..e32dd7e 100644
--- a/include/reactphysics3d/memory/PoolAllocator.h
+++ b/include/reactphysics3d/memory/PoolAllocator.h
@@ -102,8 +102,8 @@ class PoolAllocator : public MemoryAllocator {
         /// corresponding heap we will use for the allocation.
         static int mMapSizeToHeapIndex[MAX_UNIT_SIZE + 1];
 
-        /// True if the mMapSizeToHeapIndex array has already been initialized
-        static bool isMapSizeToHeadIndexInitialized;
+        /// Flag used to initialize the mMapSizeToHeapIndex array only once
+        static std::once_flag mMapSizeToHeapIndexInitFlag;
 
         /// Mutex
         std::mutex mMutex;
diff --git a/src/memory/PoolAllocator.cpp b/src/memory/PoolAllocator.cpp
index b626c72..18c442c 100644
--- a/src/memory/PoolAllocator.cpp
+++ b/src/memory/PoolAllocator.cpp
@@ -32,7 +32,7 @@
 using namespace reactphysics3d;
 
 // Initialization of static variables
-bool PoolAllocator::isMapSizeToHeadIndexInitialized = false;
+std::once_flag PoolAllocator::mMapSizeToHeapIndexInitFlag;
 size_t PoolAllocator::mUnitSizes[NB_HEAPS];
 int PoolAllocator::mMapSizeToHeapIndex[MAX_UNIT_SIZE + 1];
 
@@ -51,8 +51,9 @@ PoolAllocator::PoolAllocator(MemoryAllocator& baseAllocator) : mBaseAllocator(ba
         mNbTimesAllocateMethodCalled = 0;
 #endif
 
-    // If the mMapSizeToHeapIndex has not been initialized yet
-    if (!isMapSizeToHeadIndexInitialized) {
+    // If the mMapSizeToHeapIndex has not been initialized yet (it is shared by all the allocators
+    // that might be created in different threads)
+    std::call_once(mMapSizeToHeapIndexInitFlag, []() {
 
         // Initialize the array that contains the sizes of the memory units that will
         // be allocated in each different heap
@@ -73,9 +74,7 @@ PoolAllocator::PoolAllocator(MemoryAllocator& baseAllocator) : mBaseAllocator(ba
                 mMapSizeToHeapIndex[i] = j;
             }
         }
-
-        isMapSizeToHeadIndexInitialized = true;
-    }
+    });
 }
 
 // Destructor
-- 
2.43.0


From e3fa91ae9af6518d46443ee5f8483092fb1870e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 30/81] fix: count the worlds that are created in several
 threads without a data race

---
 include/reactphysics3d/engine/PhysicsWorld.h | 3 ++-
 src/engine/PhysicsWorld.cpp                  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/reactphysics3d/engine/PhysicsWorld.h b/include/reactphysics3d/engine/PhysicsWorld.h
index b1a3bae..d6202a6 100644
--- a/include/reactphysics3d/engine/PhysicsWorld.h
+++ b/include/reactphysics3d/engine/PhysicsWorld.h
@@ -52,6 +52,7 @@
 #include <reactphysics3d/engine/Islands.h>
 #include <reactphysics3d/utils/DebugRenderer.h>
 #include <sstream>
+#include <atomic>
 
 /// Namespace ReactPhysics3D
 namespace reactphysics3d {
@@ -229,7 +230,7 @@ class PhysicsWorld {
 #endif
 
         /// Total number of worlds
-        static uint32 mNbWorlds;
+        static std::atomic<uint32> mNbWorlds;
 
         /// All the islands of bodies of the current frame
         Islands mIslands;
diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 4d13ab2..8d4f81d 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -43,7 +43,7 @@ using namespace std;
 
 // Static initializations
 
-uint32 PhysicsWorld::mNbWorlds = 0;
+std::atomic<uint32> PhysicsWorld::mNbWorlds(0);
 
 // Constructor
 /**
-- 
2.43.0


From 0b92b0f4e7242084ec37fbc74a08b7de1980c6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 31/81] fix: do not change the raycast info of a previous hit
 when the ray misses a collider of a body

---
 src/collision/Collider.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/collision/Collider.cpp b/src/collision/Collider.cpp
index 873e7e7..a068ded 100644
--- a/src/collision/Collider.cpp
+++ b/src/collision/Collider.cpp
@@ -181,14 +181,21 @@ bool Collider::raycast(const Ray& ray, RaycastInfo& raycastInfo) {
     Ray rayLocal(worldToLocalTransform * ray.point1, worldToLocalTransform * ray.point2, ray.maxFraction);
 
     const CollisionShape* collisionShape = mBody->mWorld.mCollidersComponents.getCollisionShape(mEntity);
-    bool isHit = collisionShape->raycast(rayLocal, raycastInfo, this, mMemoryManager.getPoolAllocator());
+    RaycastInfo localRaycastInfo;
+
+    // If there is no hit, the raycast info of the user is left unchanged
+    if (!collisionShape->raycast(rayLocal, localRaycastInfo, this, mMemoryManager.getPoolAllocator())) return false;
 
     // Convert the raycast info into world-space
-    raycastInfo.worldPoint = localToWorldTransform * raycastInfo.worldPoint;
-    raycastInfo.worldNormal = localToWorldTransform.getOrientation() * raycastInfo.worldNormal;
+    raycastInfo.worldPoint = localToWorldTransform * localRaycastInfo.worldPoint;
+    raycastInfo.worldNormal = localToWorldTransform.getOrientation() * localRaycastInfo.worldNormal;
     raycastInfo.worldNormal.normalize();
+    raycastInfo.hitFraction = localRaycastInfo.hitFraction;
+    raycastInfo.triangleIndex = localRaycastInfo.triangleIndex;
+    raycastInfo.body = localRaycastInfo.body;
+    raycastInfo.collider = localRaycastInfo.collider;
 
-    return isHit;
+    return true;
 }
 
 // Return the collision category bits
-- 
2.43.0


From 52449a50a2294daee20fed51785ae3ba2ff1d850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 32/81] fix: take the scale into account in the normal of a ray
 hit on a height field

---
 src/collision/shapes/HeightFieldShape.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/collision/shapes/HeightFieldShape.cpp b/src/collision/shapes/HeightFieldShape.cpp
index 2765732..3564521 100644
--- a/src/collision/shapes/HeightFieldShape.cpp
+++ b/src/collision/shapes/HeightFieldShape.cpp
@@ -86,6 +86,7 @@ bool HeightFieldShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collide
 
         // Scale back the contact point because we used a ray scale with inverse height-field scale
         raycastInfo.worldPoint = raycastInfo.worldPoint * mScale;
+        raycastInfo.worldNormal = raycastInfo.worldNormal * inverseScale;
 
         return true;
     }
-- 
2.43.0


From b88d10ef58a7a6fa02da67505063bde0b8936d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 33/81] fix: do not loop endlessly when a ray parallel to an
 axis is cast against a height field

---
 src/collision/HeightField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision/HeightField.cpp b/src/collision/HeightField.cpp
index 4ee2700..e035dc3 100644
--- a/src/collision/HeightField.cpp
+++ b/src/collision/HeightField.cpp
@@ -280,8 +280,8 @@ bool HeightField::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* co
         decimal nextJ = static_cast<decimal>(stepJ >= 0 ? j + 1 : j);
         decimal sizeI = aabbSize.x / nbCellsI;
         decimal sizeJ = aabbSize.z / nbCellsJ;
-        decimal tMaxI = ((nextI * sizeI) - outHitGridPoint.x) / rayDirection.x;
-        decimal tMaxJ = ((nextJ * sizeJ) - outHitGridPoint.z) / rayDirection.z;
+        decimal tMaxI = stepI != 0 ? ((nextI * sizeI) - outHitGridPoint.x) / rayDirection.x : DECIMAL_LARGEST;
+        decimal tMaxJ = stepJ != 0 ? ((nextJ * sizeJ) - outHitGridPoint.z) / rayDirection.z : DECIMAL_LARGEST;
         decimal tDeltaI = sizeI / std::abs(rayDirection.x);
         decimal tDeltaJ = sizeJ / std::abs(rayDirection.z);
 
-- 
2.43.0


From f5774d1791c947f9f43c9c089f27aa2658b41f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 34/81] fix: do not take a short ray against a capsule for a
 ray that is parallel to the capsule axis

---
 src/collision/shapes/CapsuleShape.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/collision/shapes/CapsuleShape.cpp b/src/collision/shapes/CapsuleShape.cpp
index c774ca3..b66ed2f 100644
--- a/src/collision/shapes/CapsuleShape.cpp
+++ b/src/collision/shapes/CapsuleShape.cpp
@@ -98,7 +98,7 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
 
     const Vector3 n = ray.point2 - ray.point1;
 
-    const decimal epsilon = decimal(0.01);
+    const decimal epsilon = decimal(0.0000000001);
     Vector3 p(decimal(0), -mHalfHeight, decimal(0));
     Vector3 q(decimal(0), mHalfHeight, decimal(0));
     Vector3 d = q - p;
@@ -116,14 +116,13 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
     if (vec1DotD > dDotD + ddotDExtraCaps && vec1DotD + nDotD > dDotD + ddotDExtraCaps) return false;
 
     decimal nDotN = n.dot(n);
-    decimal mDotN = m.dot(n);
 
-    decimal a = dDotD * nDotN - nDotD * nDotD;
-    decimal k = m.dot(m) - mMargin * mMargin;
-    decimal c = dDotD * k - mDotD * mDotD;
+    // Note that the axis of the capsule is the Y axis
+    decimal a = dDotD * (n.x * n.x + n.z * n.z);
+    decimal c = dDotD * (m.x * m.x + m.z * m.z - mMargin * mMargin);
 
     // If the ray is parallel to the capsule axis
-    if (std::abs(a) < epsilon) {
+    if (std::abs(a) < epsilon * dDotD * nDotN) {
 
         // If the origin is outside the surface of the capusle's cylinder, we return no hit
         if (c > decimal(0.0)) return false;
@@ -171,7 +170,7 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
             return false;
         }
     }
-    decimal b = dDotD * mDotN - nDotD * mDotD;
+    decimal b = dDotD * (m.x * n.x + m.z * n.z);
     decimal discriminant = b * b - a * c;
 
     // If the discriminant is negative, no real roots and therfore, no hit
-- 
2.43.0


From 793b6b6995c969b9253ab22f918455a04235f759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 35/81] fix: put the contact point of two spheres with the same
 center on the right side of the second sphere

---
 .../narrowphase/SphereVsSphereAlgorithm.cpp   | 226 +++++++++---------
 1 file changed, 113 insertions(+), 113 deletions(-)

diff --git a/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp b/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp
index 3a8a6c9..41894c7 100755
--- a/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp
+++ b/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp
@@ -1,113 +1,113 @@
-/********************************************************************************
-* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
-* Copyright (c) 2010-2024 Daniel Chappuis                                       *
-*********************************************************************************
-*                                                                               *
-* This software is provided 'as-is', without any express or implied warranty.   *
-* In no event will the authors be held liable for any damages arising from the  *
-* use of this software.                                                         *
-*                                                                               *
-* Permission is granted to anyone to use this software for any purpose,         *
-* including commercial applications, and to alter it and redistribute it        *
-* freely, subject to the following restrictions:                                *
-*                                                                               *
-* 1. The origin of this software must not be misrepresented; you must not claim *
-*    that you wrote the original software. If you use this software in a        *
-*    product, an acknowledgment in the product documentation would be           *
-*    appreciated but is not required.                                           *
-*                                                                               *
-* 2. Altered source versions must be plainly marked as such, and must not be    *
-*    misrepresented as being the original software.                             *
-*                                                                               *
-* 3. This notice may not be removed or altered from any source distribution.    *
-*                                                                               *
-********************************************************************************/
-
-// Libraries
-#include <reactphysics3d/collision/narrowphase/SphereVsSphereAlgorithm.h>
-#include <reactphysics3d/collision/shapes/SphereShape.h>
-#include <reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h>
-
-// We want to use the ReactPhysics3D namespace
-using namespace reactphysics3d;  
-
-bool SphereVsSphereAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchStartIndex, uint32 batchNbItems, MemoryAllocator& /*memoryAllocator*/) {
-
-    bool isCollisionFound = false;
-
-    // For each item in the batch
-    for (uint32 batchIndex = batchStartIndex; batchIndex < batchStartIndex + batchNbItems; batchIndex++) {
-
-        assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].nbContactPoints == 0);
-        assert(!narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding);
-
-        // Get the local-space to world-space transforms
-        const Transform& transform1 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform;
-        const Transform& transform2 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform;
-
-        // Compute the distance between the centers
-        Vector3 vectorBetweenCenters = transform2.getPosition() - transform1.getPosition();
-        decimal squaredDistanceBetweenCenters = vectorBetweenCenters.lengthSquare();
-
-        const SphereShape* sphereShape1 = static_cast<SphereShape*>(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1);
-        const SphereShape* sphereShape2 = static_cast<SphereShape*>(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2);
-
-        const decimal sphere1Radius = sphereShape1->getRadius();
-        const decimal sphere2Radius = sphereShape2->getRadius();
-
-        // Compute the sum of the radius
-        const decimal sumRadiuses = sphere1Radius + sphere2Radius;
-
-        // Compute the product of the sum of the radius
-        const decimal sumRadiusesProducts = sumRadiuses * sumRadiuses;
-
-        // If the sphere collision shapes intersect
-        if (squaredDistanceBetweenCenters < sumRadiusesProducts) {
-
-            const decimal penetrationDepth = sumRadiuses - std::sqrt(squaredDistanceBetweenCenters);
-
-            // Make sure the penetration depth is not zero (even if the previous condition test was true the penetration depth can still be
-            // zero because of precision issue of the computation at the previous line)
-            if (penetrationDepth > 0) {
-
-                // If we need to report contacts
-                if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
-
-                    const Transform transform1Inverse = transform1.getInverse();
-                    const Transform transform2Inverse = transform2.getInverse();
-
-                    Vector3 intersectionOnBody1;
-                    Vector3 intersectionOnBody2;
-                    Vector3 normal;
-
-                    // If the two sphere centers are not at the same position
-                    if (squaredDistanceBetweenCenters > MACHINE_EPSILON) {
-
-                        const Vector3 centerSphere2InBody1LocalSpace = transform1Inverse * transform2.getPosition();
-                        const Vector3 centerSphere1InBody2LocalSpace = transform2Inverse * transform1.getPosition();
-
-                        intersectionOnBody1 = sphere1Radius * centerSphere2InBody1LocalSpace.getUnit();
-                        intersectionOnBody2 = sphere2Radius * centerSphere1InBody2LocalSpace.getUnit();
-                        normal = vectorBetweenCenters.getUnit();
-                    }
-                    else {    // If the sphere centers are at the same position (degenerate case)
-
-                        // Take any contact normal direction
-                        normal.setAllValues(0, 1, 0);
-
-                        intersectionOnBody1 = sphere1Radius * (transform1Inverse.getOrientation() * normal);
-                        intersectionOnBody2 = sphere2Radius * (transform2Inverse.getOrientation() * normal);
-                    }
-
-                    // Create the contact info object
-                    narrowPhaseInfoBatch.addContactPoint(batchIndex, normal, penetrationDepth, intersectionOnBody1, intersectionOnBody2);
-                }
-
-                narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding = true;
-                isCollisionFound = true;
-            }
-        }
-    }
-
-    return isCollisionFound;
-}
+/********************************************************************************
+* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
+* Copyright (c) 2010-2024 Daniel Chappuis                                       *
+*********************************************************************************
+*                                                                               *
+* This software is provided 'as-is', without any express or implied warranty.   *
+* In no event will the authors be held liable for any damages arising from the  *
+* use of this software.                                                         *
+*                                                                               *
+* Permission is granted to anyone to use this software for any purpose,         *
+* including commercial applications, and to alter it and redistribute it        *
+* freely, subject to the following restrictions:                                *
+*                                                                               *
+* 1. The origin of this software must not be misrepresented; you must not claim *
+*    that you wrote the original software. If you use this software in a        *
+*    product, an acknowledgment in the product documentation would be           *
+*    appreciated but is not required.                                           *
+*                                                                               *
+* 2. Altered source versions must be plainly marked as such, and must not be    *
+*    misrepresented as being the original software.                             *
+*                                                                               *
+* 3. This notice may not be removed or altered from any source distribution.    *
+*                                                                               *
+********************************************************************************/
+
+// Libraries
+#include <reactphysics3d/collision/narrowphase/SphereVsSphereAlgorithm.h>
+#include <reactphysics3d/collision/shapes/SphereShape.h>
+#include <reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h>
+
+// We want to use the ReactPhysics3D namespace
+using namespace reactphysics3d;  
+
+bool SphereVsSphereAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchStartIndex, uint32 batchNbItems, MemoryAllocator& /*memoryAllocator*/) {
+
+    bool isCollisionFound = false;
+
+    // For each item in the batch
+    for (uint32 batchIndex = batchStartIndex; batchIndex < batchStartIndex + batchNbItems; batchIndex++) {
+
+        assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].nbContactPoints == 0);
+        assert(!narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding);
+
+        // Get the local-space to world-space transforms
+        const Transform& transform1 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform;
+        const Transform& transform2 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform;
+
+        // Compute the distance between the centers
+        Vector3 vectorBetweenCenters = transform2.getPosition() - transform1.getPosition();
+        decimal squaredDistanceBetweenCenters = vectorBetweenCenters.lengthSquare();
+
+        const SphereShape* sphereShape1 = static_cast<SphereShape*>(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1);
+        const SphereShape* sphereShape2 = static_cast<SphereShape*>(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2);
+
+        const decimal sphere1Radius = sphereShape1->getRadius();
+        const decimal sphere2Radius = sphereShape2->getRadius();
+
+        // Compute the sum of the radius
+        const decimal sumRadiuses = sphere1Radius + sphere2Radius;
+
+        // Compute the product of the sum of the radius
+        const decimal sumRadiusesProducts = sumRadiuses * sumRadiuses;
+
+        // If the sphere collision shapes intersect
+        if (squaredDistanceBetweenCenters < sumRadiusesProducts) {
+
+            const decimal penetrationDepth = sumRadiuses - std::sqrt(squaredDistanceBetweenCenters);
+
+            // Make sure the penetration depth is not zero (even if the previous condition test was true the penetration depth can still be
+            // zero because of precision issue of the computation at the previous line)
+            if (penetrationDepth > 0) {
+
+                // If we need to report contacts
+                if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
+
+                    const Transform transform1Inverse = transform1.getInverse();
+                    const Transform transform2Inverse = transform2.getInverse();
+
+                    Vector3 intersectionOnBody1;
+                    Vector3 intersectionOnBody2;
+                    Vector3 normal;
+
+                    // If the two sphere centers are not at the same position
+                    if (squaredDistanceBetweenCenters > MACHINE_EPSILON) {
+
+                        const Vector3 centerSphere2InBody1LocalSpace = transform1Inverse * transform2.getPosition();
+                        const Vector3 centerSphere1InBody2LocalSpace = transform2Inverse * transform1.getPosition();
+
+                        intersectionOnBody1 = sphere1Radius * centerSphere2InBody1LocalSpace.getUnit();
+                        intersectionOnBody2 = sphere2Radius * centerSphere1InBody2LocalSpace.getUnit();
+                        normal = vectorBetweenCenters.getUnit();
+                    }
+                    else {    // If the sphere centers are at the same position (degenerate case)
+
+                        // Take any contact normal direction
+                        normal.setAllValues(0, 1, 0);
+
+                        intersectionOnBody1 = sphere1Radius * (transform1Inverse.getOrientation() * normal);
+                        intersectionOnBody2 = -sphere2Radius * (transform2Inverse.getOrientation() * normal);
+                    }
+
+                    // Create the contact info object
+                    narrowPhaseInfoBatch.addContactPoint(batchIndex, normal, penetrationDepth, intersectionOnBody1, intersectionOnBody2);
+                }
+
+                narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding = true;
+                isCollisionFound = true;
+            }
+        }
+    }
+
+    return isCollisionFound;
+}
-- 
2.43.0


From a441d2d9e5e2eb360038fea800c646c4cc9cc0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 36/81] fix: direction of the contact normal between a capsule
 and a sphere whose center is on the capsule segment

---
 .../narrowphase/SphereVsCapsuleAlgorithm.cpp  | 308 +++++++++---------
 1 file changed, 156 insertions(+), 152 deletions(-)

diff --git a/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp b/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
index 5f90af9..62df1b7 100755
--- a/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
+++ b/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
@@ -1,152 +1,156 @@
-/********************************************************************************
-* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
-* Copyright (c) 2010-2024 Daniel Chappuis                                       *
-*********************************************************************************
-*                                                                               *
-* This software is provided 'as-is', without any express or implied warranty.   *
-* In no event will the authors be held liable for any damages arising from the  *
-* use of this software.                                                         *
-*                                                                               *
-* Permission is granted to anyone to use this software for any purpose,         *
-* including commercial applications, and to alter it and redistribute it        *
-* freely, subject to the following restrictions:                                *
-*                                                                               *
-* 1. The origin of this software must not be misrepresented; you must not claim *
-*    that you wrote the original software. If you use this software in a        *
-*    product, an acknowledgment in the product documentation would be           *
-*    appreciated but is not required.                                           *
-*                                                                               *
-* 2. Altered source versions must be plainly marked as such, and must not be    *
-*    misrepresented as being the original software.                             *
-*                                                                               *
-* 3. This notice may not be removed or altered from any source distribution.    *
-*                                                                               *
-********************************************************************************/
-
-// Libraries
-#include <reactphysics3d/collision/narrowphase/SphereVsCapsuleAlgorithm.h>
-#include <reactphysics3d/collision/shapes/SphereShape.h>
-#include <reactphysics3d/collision/shapes/CapsuleShape.h>
-#include <reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h>
-
-// We want to use the ReactPhysics3D namespace
-using namespace reactphysics3d;  
-
-// Compute the narrow-phase collision detection between a sphere and a capsule
-// This technique is based on the "Robust Contact Creation for Physics Simulations" presentation
-// by Dirk Gregorius.
-bool SphereVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchStartIndex, uint32 batchNbItems, MemoryAllocator& /*memoryAllocator*/) {
-
-    bool isCollisionFound = false;
-
-    for (uint32 batchIndex = batchStartIndex; batchIndex < batchStartIndex + batchNbItems; batchIndex++) {
-
-        assert(!narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding);
-        assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].nbContactPoints == 0);
-
-        const bool isSphereShape1 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1->getType() == CollisionShapeType::SPHERE;
-
-        const SphereShape* sphereShape = static_cast<SphereShape*>(isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1 : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2);
-        const CapsuleShape* capsuleShape = static_cast<CapsuleShape*>(isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2 : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1);
-
-        const decimal capsuleHeight = capsuleShape->getHeight();
-        const decimal sphereRadius = sphereShape->getRadius();
-        const decimal capsuleRadius = capsuleShape->getRadius();
-
-        // Get the transform from sphere local-space to capsule local-space
-        const Transform& sphereToWorldTransform = isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform;
-        const Transform& capsuleToWorldTransform = isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform;
-        const Transform worldToCapsuleTransform = capsuleToWorldTransform.getInverse();
-        const Transform sphereToCapsuleSpaceTransform = worldToCapsuleTransform * sphereToWorldTransform;
-
-        // Transform the center of the sphere into the local-space of the capsule shape
-        const Vector3 sphereCenter = sphereToCapsuleSpaceTransform.getPosition();
-
-        // Compute the end-points of the inner segment of the capsule
-        const decimal capsuleHalfHeight = capsuleHeight * decimal(0.5);
-        const Vector3 capsuleSegA(0, -capsuleHalfHeight, 0);
-        const Vector3 capsuleSegB(0, capsuleHalfHeight, 0);
-
-        // Compute the point on the inner capsule segment that is the closes to center of sphere
-        const Vector3 closestPointOnSegment = computeClosestPointOnSegment(capsuleSegA, capsuleSegB, sphereCenter);
-
-        // Compute the distance between the sphere center and the closest point on the segment
-        Vector3 sphereCenterToSegment = (closestPointOnSegment - sphereCenter);
-        const decimal sphereSegmentDistanceSquare = sphereCenterToSegment.lengthSquare();
-
-        // Compute the sum of the radius of the sphere and the capsule (virtual sphere)
-        decimal sumRadius = sphereRadius + capsuleRadius;
-
-        // If the collision shapes overlap
-        if (sphereSegmentDistanceSquare < sumRadius * sumRadius) {
-
-            decimal penetrationDepth;
-            Vector3 normalWorld;
-            Vector3 contactPointSphereLocal;
-            Vector3 contactPointCapsuleLocal;
-
-            // If we need to report contacts
-            if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
-
-                // If the sphere center is not on the capsule inner segment
-                if (sphereSegmentDistanceSquare > MACHINE_EPSILON) {
-
-                    decimal sphereSegmentDistance = std::sqrt(sphereSegmentDistanceSquare);
-                    sphereCenterToSegment /= sphereSegmentDistance;
-
-                    contactPointSphereLocal = sphereToCapsuleSpaceTransform.getInverse() * (sphereCenter + sphereCenterToSegment * sphereRadius);
-                    contactPointCapsuleLocal = closestPointOnSegment - sphereCenterToSegment * capsuleRadius;
-
-                    normalWorld = capsuleToWorldTransform.getOrientation() * sphereCenterToSegment;
-
-                    penetrationDepth = sumRadius - sphereSegmentDistance;
-
-                    if (!isSphereShape1) {
-                        normalWorld = -normalWorld;
-                    }
-                }
-                else {  // If the sphere center is on the capsule inner segment (degenerate case)
-
-                    // We take any direction that is orthogonal to the inner capsule segment as a contact normal
-
-                    // Capsule inner segment
-                    Vector3 capsuleSegment = (capsuleSegB - capsuleSegA).getUnit();
-
-                    Vector3 vec1(1, 0, 0);
-                    Vector3 vec2(0, 1, 0);
-
-                    // Get the vectors (among vec1 and vec2) that is the most orthogonal to the capsule inner segment (smallest absolute dot product)
-                    decimal cosA1 = std::abs(capsuleSegment.x);		// abs(vec1.dot(seg2))
-                    decimal cosA2 = std::abs(capsuleSegment.y);	    // abs(vec2.dot(seg2))
-
-                    penetrationDepth = sumRadius;
-
-                    // We choose as a contact normal, any direction that is perpendicular to the inner capsule segment
-                    Vector3 normalCapsuleSpace = cosA1 < cosA2 ? capsuleSegment.cross(vec1) : capsuleSegment.cross(vec2);
-                    normalWorld = capsuleToWorldTransform.getOrientation() * normalCapsuleSpace;
-
-                    // Compute the two local contact points
-                    contactPointSphereLocal = sphereToCapsuleSpaceTransform.getInverse() * (sphereCenter + normalCapsuleSpace * sphereRadius);
-                    contactPointCapsuleLocal = sphereCenter - normalCapsuleSpace * capsuleRadius;
-                }
-
-                if (penetrationDepth <= decimal(0.0)) {
-
-                    // No collision
-                    continue;
-                }
-
-                // Create the contact info object
-                narrowPhaseInfoBatch.addContactPoint(batchIndex, normalWorld, penetrationDepth,
-                                                 isSphereShape1 ? contactPointSphereLocal : contactPointCapsuleLocal,
-                                                 isSphereShape1 ? contactPointCapsuleLocal : contactPointSphereLocal);
-            }
-
-            narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding = true;
-            isCollisionFound = true;
-            continue;
-        }
-    }
-
-    return isCollisionFound;
-}
+/********************************************************************************
+* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
+* Copyright (c) 2010-2024 Daniel Chappuis                                       *
+*********************************************************************************
+*                                                                               *
+* This software is provided 'as-is', without any express or implied warranty.   *
+* In no event will the authors be held liable for any damages arising from the  *
+* use of this software.                                                         *
+*                                                                               *
+* Permission is granted to anyone to use this software for any purpose,         *
+* including commercial applications, and to alter it and redistribute it        *
+* freely, subject to the following restrictions:                                *
+*                                                                               *
+* 1. The origin of this software must not be misrepresented; you must not claim *
+*    that you wrote the original software. If you use this software in a        *
+*    product, an acknowledgment in the product documentation would be           *
+*    appreciated but is not required.                                           *
+*                                                                               *
+* 2. Altered source versions must be plainly marked as such, and must not be    *
+*    misrepresented as being the original software.                             *
+*                                                                               *
+* 3. This notice may not be removed or altered from any source distribution.    *
+*                                                                               *
+********************************************************************************/
+
+// Libraries
+#include <reactphysics3d/collision/narrowphase/SphereVsCapsuleAlgorithm.h>
+#include <reactphysics3d/collision/shapes/SphereShape.h>
+#include <reactphysics3d/collision/shapes/CapsuleShape.h>
+#include <reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h>
+
+// We want to use the ReactPhysics3D namespace
+using namespace reactphysics3d;  
+
+// Compute the narrow-phase collision detection between a sphere and a capsule
+// This technique is based on the "Robust Contact Creation for Physics Simulations" presentation
+// by Dirk Gregorius.
+bool SphereVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchStartIndex, uint32 batchNbItems, MemoryAllocator& /*memoryAllocator*/) {
+
+    bool isCollisionFound = false;
+
+    for (uint32 batchIndex = batchStartIndex; batchIndex < batchStartIndex + batchNbItems; batchIndex++) {
+
+        assert(!narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding);
+        assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].nbContactPoints == 0);
+
+        const bool isSphereShape1 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1->getType() == CollisionShapeType::SPHERE;
+
+        const SphereShape* sphereShape = static_cast<SphereShape*>(isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1 : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2);
+        const CapsuleShape* capsuleShape = static_cast<CapsuleShape*>(isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2 : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1);
+
+        const decimal capsuleHeight = capsuleShape->getHeight();
+        const decimal sphereRadius = sphereShape->getRadius();
+        const decimal capsuleRadius = capsuleShape->getRadius();
+
+        // Get the transform from sphere local-space to capsule local-space
+        const Transform& sphereToWorldTransform = isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform;
+        const Transform& capsuleToWorldTransform = isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform;
+        const Transform worldToCapsuleTransform = capsuleToWorldTransform.getInverse();
+        const Transform sphereToCapsuleSpaceTransform = worldToCapsuleTransform * sphereToWorldTransform;
+
+        // Transform the center of the sphere into the local-space of the capsule shape
+        const Vector3 sphereCenter = sphereToCapsuleSpaceTransform.getPosition();
+
+        // Compute the end-points of the inner segment of the capsule
+        const decimal capsuleHalfHeight = capsuleHeight * decimal(0.5);
+        const Vector3 capsuleSegA(0, -capsuleHalfHeight, 0);
+        const Vector3 capsuleSegB(0, capsuleHalfHeight, 0);
+
+        // Compute the point on the inner capsule segment that is the closes to center of sphere
+        const Vector3 closestPointOnSegment = computeClosestPointOnSegment(capsuleSegA, capsuleSegB, sphereCenter);
+
+        // Compute the distance between the sphere center and the closest point on the segment
+        Vector3 sphereCenterToSegment = (closestPointOnSegment - sphereCenter);
+        const decimal sphereSegmentDistanceSquare = sphereCenterToSegment.lengthSquare();
+
+        // Compute the sum of the radius of the sphere and the capsule (virtual sphere)
+        decimal sumRadius = sphereRadius + capsuleRadius;
+
+        // If the collision shapes overlap
+        if (sphereSegmentDistanceSquare < sumRadius * sumRadius) {
+
+            decimal penetrationDepth;
+            Vector3 normalWorld;
+            Vector3 contactPointSphereLocal;
+            Vector3 contactPointCapsuleLocal;
+
+            // If we need to report contacts
+            if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
+
+                // If the sphere center is not on the capsule inner segment
+                if (sphereSegmentDistanceSquare > MACHINE_EPSILON) {
+
+                    decimal sphereSegmentDistance = std::sqrt(sphereSegmentDistanceSquare);
+                    sphereCenterToSegment /= sphereSegmentDistance;
+
+                    contactPointSphereLocal = sphereToCapsuleSpaceTransform.getInverse() * (sphereCenter + sphereCenterToSegment * sphereRadius);
+                    contactPointCapsuleLocal = closestPointOnSegment - sphereCenterToSegment * capsuleRadius;
+
+                    normalWorld = capsuleToWorldTransform.getOrientation() * sphereCenterToSegment;
+
+                    penetrationDepth = sumRadius - sphereSegmentDistance;
+
+                    if (!isSphereShape1) {
+                        normalWorld = -normalWorld;
+                    }
+                }
+                else {  // If the sphere center is on the capsule inner segment (degenerate case)
+
+                    // We take any direction that is orthogonal to the inner capsule segment as a contact normal
+
+                    // Capsule inner segment
+                    Vector3 capsuleSegment = (capsuleSegB - capsuleSegA).getUnit();
+
+                    Vector3 vec1(1, 0, 0);
+                    Vector3 vec2(0, 1, 0);
+
+                    // Get the vectors (among vec1 and vec2) that is the most orthogonal to the capsule inner segment (smallest absolute dot product)
+                    decimal cosA1 = std::abs(capsuleSegment.x);		// abs(vec1.dot(seg2))
+                    decimal cosA2 = std::abs(capsuleSegment.y);	    // abs(vec2.dot(seg2))
+
+                    penetrationDepth = sumRadius;
+
+                    // We choose as a contact normal, any direction that is perpendicular to the inner capsule segment
+                    Vector3 normalCapsuleSpace = cosA1 < cosA2 ? capsuleSegment.cross(vec1) : capsuleSegment.cross(vec2);
+                    normalWorld = capsuleToWorldTransform.getOrientation() * normalCapsuleSpace;
+
+                    if (!isSphereShape1) {
+                        normalWorld = -normalWorld;
+                    }
+
+                    // Compute the two local contact points
+                    contactPointSphereLocal = sphereToCapsuleSpaceTransform.getInverse() * (sphereCenter + normalCapsuleSpace * sphereRadius);
+                    contactPointCapsuleLocal = sphereCenter - normalCapsuleSpace * capsuleRadius;
+                }
+
+                if (penetrationDepth <= decimal(0.0)) {
+
+                    // No collision
+                    continue;
+                }
+
+                // Create the contact info object
+                narrowPhaseInfoBatch.addContactPoint(batchIndex, normalWorld, penetrationDepth,
+                                                 isSphereShape1 ? contactPointSphereLocal : contactPointCapsuleLocal,
+                                                 isSphereShape1 ? contactPointCapsuleLocal : contactPointSphereLocal);
+            }
+
+            narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding = true;
+            isCollisionFound = true;
+            continue;
+        }
+    }
+
+    return isCollisionFound;
+}
-- 
2.43.0


From 8b4c09c6ae7ee83caa33d8a61f5ad3942ffcb7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 37/81] fix: stop the collision of an overlapping pair when its
 collision filtering is changed

---
 src/systems/CollisionDetectionSystem.cpp | 25 +++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 3a4c517..1391b90 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -306,17 +306,20 @@ void CollisionDetectionSystem::updateOverlappingPairs(const Array<Pair<int32, in
 
                     // Check if the overlapping pair already exists
                     OverlappingPairs::OverlappingPair* overlappingPair = mOverlappingPairs.getOverlappingPair(pairId);
-                    if (overlappingPair == nullptr) {
 
-                        const unsigned short shape1CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider1Index];
-                        const unsigned short shape2CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider2Index];
+                    const unsigned short shape1CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider1Index];
+                    const unsigned short shape2CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider2Index];
+
+                    const unsigned short shape1CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider1Index];
+                    const unsigned short shape2CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider2Index];
+
+                    // Check if the collision filtering allows collision between the two shapes
+                    const bool isCollisionAllowed = (shape1CollideWithMaskBits & shape2CollisionCategoryBits) != 0 &&
+                                                    (shape1CollisionCategoryBits & shape2CollideWithMaskBits) != 0;
 
-                        const unsigned short shape1CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider1Index];
-                        const unsigned short shape2CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider2Index];
+                    if (overlappingPair == nullptr) {
 
-                        // Check if the collision filtering allows collision between the two shapes
-                        if ((shape1CollideWithMaskBits & shape2CollisionCategoryBits) != 0 &&
-                            (shape1CollisionCategoryBits & shape2CollideWithMaskBits) != 0) {
+                        if (isCollisionAllowed) {
 
                             Collider* shape1 = mCollidersComponents.mColliders[collider1Index];
                             Collider* shape2 = mCollidersComponents.mColliders[collider2Index];
@@ -331,11 +334,15 @@ void CollisionDetectionSystem::updateOverlappingPairs(const Array<Pair<int32, in
                             }
                         }
                     }
-                    else {
+                    else if (isCollisionAllowed) {
 
                         // We do not need to test the pair for overlap because it has just been reported that they still overlap
                         overlappingPair->needToTestOverlap = false;
                     }
+                    else {  // If the collision filtering has been changed and does not allow collision anymore
+
+                        removeOverlappingPair(pairId, true);
+                    }
                 }
             }
         }
-- 
2.43.0


From 413ee30dde7a07ae61f7c65488591bf60f779cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 38/81] fix: do not keep reporting a collision between two
 polyhedra when one has gone through the other one

---
 .../collision/narrowphase/SAT/SATAlgorithm.h  |  5 ++-
 .../narrowphase/SAT/SATAlgorithm.cpp          | 42 +++++++++++++++++--
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h b/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
index 74e3bf2..271b8a7 100644
--- a/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
+++ b/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
@@ -133,8 +133,11 @@ class SATAlgorithm {
         bool computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPenetrationFaceNormalPolyhedron1, const ConvexPolyhedronShape* polyhedron1,
                                                             const ConvexPolyhedronShape* polyhedron2, const Transform& polyhedron1ToPolyhedron2,
                                                             const Transform& polyhedron2ToPolyhedron1, uint32 minFaceIndex,
-                                                            NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex) const;
+                                                            NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex,
+                                                            bool onlyIfOverlapping = false) const;
 
+        /// Return true if a point in local-space is inside a polyhedron
+        bool testPointInsidePolyhedron(const ConvexPolyhedronShape* polyhedron, const Vector3& localPoint) const;
 
     public :
 
diff --git a/src/collision/narrowphase/SAT/SATAlgorithm.cpp b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
index d86a11e..d576c2d 100644
--- a/src/collision/narrowphase/SAT/SATAlgorithm.cpp
+++ b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
@@ -545,7 +545,7 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                     // Compute the contact points between two faces of two convex polyhedra.
                     if(computePolyhedronVsPolyhedronFaceContactPoints(isMinPenetrationFaceNormalPolyhedron1, polyhedron1, polyhedron2,
                                               polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1, minFaceIndex,
-                                              narrowPhaseInfoBatch, batchIndex)) {
+                                              narrowPhaseInfoBatch, batchIndex, true)) {
 
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron1 = isMinPenetrationFaceNormalPolyhedron1;
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron2 = !isMinPenetrationFaceNormalPolyhedron1;
@@ -585,7 +585,7 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                     // Compute the contact points between two faces of two convex polyhedra.
                     if(computePolyhedronVsPolyhedronFaceContactPoints(isMinPenetrationFaceNormalPolyhedron1, polyhedron1, polyhedron2,
                                               polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1, minFaceIndex,
-                                              narrowPhaseInfoBatch, batchIndex)) {
+                                              narrowPhaseInfoBatch, batchIndex, true)) {
 
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron1 = isMinPenetrationFaceNormalPolyhedron1;
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron2 = !isMinPenetrationFaceNormalPolyhedron1;
@@ -652,7 +652,9 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                         const decimal edge2LengthSquare = edge2Direction.lengthSquare();
                         decimal t1 = vec1.dot(edge2Direction) / edge2LengthSquare;
                         decimal t2 = vec2.dot(edge1Direction) / edge1LengthSquare;
-                        if (t1 >= decimal(0.0) && t1 <= decimal(1) && t2 >= decimal(0.0) && t2 <= decimal(1.0)) {
+                        if (t1 >= decimal(0.0) && t1 <= decimal(1) && t2 >= decimal(0.0) && t2 <= decimal(1.0) &&
+                            (testPointInsidePolyhedron(polyhedron2, closestPointPolyhedron1Edge) ||
+                             testPointInsidePolyhedron(polyhedron1, polyhedron2ToPolyhedron1 * closestPointPolyhedron2Edge))) {
 
                             // If we need to report contact points
                             if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
@@ -909,7 +911,8 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
 bool SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPenetrationFaceNormalPolyhedron1,
                                                                   const ConvexPolyhedronShape* polyhedron1, const ConvexPolyhedronShape* polyhedron2,
                                                                   const Transform& polyhedron1ToPolyhedron2, const Transform& polyhedron2ToPolyhedron1,
-                                                                  uint32 minFaceIndex, NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex) const {
+                                                                  uint32 minFaceIndex, NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex,
+                                                                  bool onlyIfOverlapping) const {
 
     RP3D_PROFILE("SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints", mProfiler);
 
@@ -1011,6 +1014,25 @@ bool SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPene
     const Vector3 referenceFaceVertex = referencePolyhedron->getVertexPosition(referencePolyhedron->getHalfEdge(firstEdgeIndex).vertexIndex);
     bool contactPointsFound = false;
     const uint32 nbClipPolygonVertices = static_cast<uint32>(clippedPolygonVertices.size());
+
+    // A clipped point below the reference face does not tell that the polyhedra overlap when the face normal is not the
+    // axis of minimum penetration (the incident polyhedron might have gone through the reference one for instance)
+    if (onlyIfOverlapping) {
+
+        bool isOverlapping = false;
+        for (uint32 i=0; i < nbClipPolygonVertices && !isOverlapping; i++) {
+
+            if ((referenceFaceVertex - clippedPolygonVertices[i]).dot(axisReferenceSpace) > decimal(0.0)) {
+
+                const Vector3 referenceFacePoint = projectPointOntoPlane(clippedPolygonVertices[i], axisReferenceSpace, referenceFaceVertex);
+                isOverlapping = testPointInsidePolyhedron(referencePolyhedron, clippedPolygonVertices[i]) ||
+                                testPointInsidePolyhedron(incidentPolyhedron, referenceToIncidentTransform * referenceFacePoint);
+            }
+        }
+
+        if (!isOverlapping) return false;
+    }
+
     for (uint32 i=0; i < nbClipPolygonVertices; i++) {
 
         // Compute the penetration depth of this contact point (can be different from the minPenetration depth which is
@@ -1052,6 +1074,18 @@ bool SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPene
 }
 
 
+// Return true if a point in local-space is inside a polyhedron
+bool SATAlgorithm::testPointInsidePolyhedron(const ConvexPolyhedronShape* polyhedron, const Vector3& localPoint) const {
+
+    for (uint32 f=0; f < polyhedron->getNbFaces(); f++) {
+
+        const Vector3 faceVertex = polyhedron->getVertexPosition(polyhedron->getFace(f).faceVertices[0]);
+        if (polyhedron->getFaceNormal(f).dot(localPoint - faceVertex) > SEPARATING_AXIS_ABSOLUTE_TOLERANCE) return false;
+    }
+
+    return true;
+}
+
 // Compute and return the distance between the two edges in the direction of the candidate separating axis
 decimal SATAlgorithm::computeDistanceBetweenEdges(const Vector3& edge1A, const Vector3& edge2A,
                                                   const Vector3& polyhedron1Centroid, const Vector3& polyhedron2Centroid,
-- 
2.43.0


From 9d34d4f7cc814845acf4711a3dd2d1af1f2b04d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 39/81] fix: detect the collisions of a static body that
 becomes dynamic or kinematic again and awake a body that becomes static

---
 src/body/RigidBody.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 3bbc532..a1112df 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -65,7 +65,11 @@ BodyType RigidBody::getType() const {
  */
 void RigidBody::setType(BodyType type) {
 
-    if (mWorld.mRigidBodyComponents.getBodyType(mEntity) == type) return;
+    const BodyType previousType = mWorld.mRigidBodyComponents.getBodyType(mEntity);
+    if (previousType == type) return;
+
+    // Awake the body (before it might become static because a static body cannot be awakened)
+    setIsSleeping(false);
 
     mWorld.mRigidBodyComponents.setBodyType(mEntity, type);
 
@@ -111,14 +115,19 @@ void RigidBody::setType(BodyType type) {
     // Disable/Enable the body if necessary (components of static and inactive bodies are disabled)
     mWorld.setBodyDisabled(mEntity, type == BodyType::STATIC || !mWorld.mBodyComponents.getIsActive(mEntity));
 
-    // Awake the body
-    setIsSleeping(false);
-
     if (type == BodyType::STATIC) {
 
         // Disable overlapping pairs if both bodies are disabled (sleeping or static)
         checkForDisabledOverlappingPairs();
     }
+    else if (previousType == BodyType::STATIC && mWorld.mBodyComponents.getIsActive(mEntity)) {
+
+        // We need to enable the overlapping pairs that are disabled because the body was static
+        enableOverlappingPairs();
+
+        // Make sure the broad-phase will compute the overlapping pairs with the other static bodies
+        askForBroadPhaseCollisionCheck();
+    }
 
     // Reset the force and torque on the body
     mWorld.mRigidBodyComponents.setExternalForce(mEntity, Vector3::zero());
-- 
2.43.0


From 816b99b2f6c9e2ef70388fccf38fe711ac271e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 40/81] fix: keep two bodies from colliding until all their
 joints that disable the collision are destroyed and collide again then

---
 src/engine/PhysicsWorld.cpp | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 8d4f81d..cd696b8 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -610,13 +610,6 @@ void PhysicsWorld::destroyJoint(Joint* joint) {
     RP3D_LOG(mConfig.worldName, Logger::Level::Information, Logger::Category::Joint,
              "Joint " + std::to_string(joint->getEntity().id) + ": joint destroyed",  __FILE__, __LINE__);
 
-    // If the collision between the two bodies of the constraint was disabled
-    if (!joint->isCollisionEnabled()) {
-
-        // Remove the pair of bodies from the set of body pairs that cannot collide with each other
-        mCollisionDetection.removeNoCollisionPair(joint->getBody1()->getEntity(), joint->getBody2()->getEntity());
-    }
-
     RigidBody* body1 = joint->getBody1();
     RigidBody* body2 = joint->getBody2();
 
@@ -628,6 +621,34 @@ void PhysicsWorld::destroyJoint(Joint* joint) {
     mRigidBodyComponents.removeJointFromBody(body1->getEntity(), joint->getEntity());
     mRigidBodyComponents.removeJointFromBody(body2->getEntity(), joint->getEntity());
 
+    // If the collision between the two bodies of the constraint was disabled
+    if (!joint->isCollisionEnabled()) {
+
+        // Check if another joint still disables the collision between the two bodies
+        bool isCollisionStillDisabled = false;
+        const Array<Entity>& remainingJoints = mRigidBodyComponents.getJoints(body1->getEntity());
+        for (uint32 i=0; i < remainingJoints.size(); i++) {
+
+            if (!mJointsComponents.getIsCollisionEnabled(remainingJoints[i]) &&
+                (mJointsComponents.getBody1Entity(remainingJoints[i]) == body2->getEntity() ||
+                 mJointsComponents.getBody2Entity(remainingJoints[i]) == body2->getEntity())) {
+
+                isCollisionStillDisabled = true;
+                break;
+            }
+        }
+
+        if (!isCollisionStillDisabled) {
+
+            // Remove the pair of bodies from the set of body pairs that cannot collide with each other
+            mCollisionDetection.removeNoCollisionPair(body1->getEntity(), body2->getEntity());
+
+            // Make sure the broad-phase will compute the overlapping pairs between the two bodies
+            body1->askForBroadPhaseCollisionCheck();
+            body2->askForBroadPhaseCollisionCheck();
+        }
+    }
+
     size_t nbBytes = joint->getSizeInBytes();
 
     Entity jointEntity = joint->getEntity();
-- 
2.43.0


From eed965e7051cf52e35d4bc5b2b2afc749b739c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 41/81] fix: a body that becomes static does not keep the
 velocities of the previous step in the solver

---
 src/body/RigidBody.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index a1112df..158e898 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -80,6 +80,12 @@ void RigidBody::setType(BodyType type) {
         mWorld.mRigidBodyComponents.setLinearVelocity(mEntity, Vector3::zero());
         mWorld.mRigidBodyComponents.setAngularVelocity(mEntity, Vector3::zero());
 
+        // Reset the velocities of the previous step (they are not computed anymore for a static body)
+        mWorld.mRigidBodyComponents.setConstrainedLinearVelocity(mEntity, Vector3::zero());
+        mWorld.mRigidBodyComponents.setConstrainedAngularVelocity(mEntity, Vector3::zero());
+        mWorld.mRigidBodyComponents.setSplitLinearVelocity(mEntity, Vector3::zero());
+        mWorld.mRigidBodyComponents.setSplitAngularVelocity(mEntity, Vector3::zero());
+
         const Transform& transform = getTransform();
         mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, transform.getPosition());
         mWorld.mRigidBodyComponents.setConstrainedOrientation(mEntity, transform.getOrientation());
-- 
2.43.0


From e5fd014a63d863fa4fa41248eb843f19289a9dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 42/81] fix: keep the closest points of the previous GJK
 iteration when numerical errors increase the distance

---
 .../narrowphase/GJK/GJKAlgorithm.cpp          | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/collision/narrowphase/GJK/GJKAlgorithm.cpp b/src/collision/narrowphase/GJK/GJKAlgorithm.cpp
index e447c52..11c28f3 100644
--- a/src/collision/narrowphase/GJK/GJKAlgorithm.cpp
+++ b/src/collision/narrowphase/GJK/GJKAlgorithm.cpp
@@ -63,6 +63,10 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
         decimal vDotw;
         decimal prevDistSquare;
         bool contactFound = false;
+        Vector3 previousV;         // Closest point to the origin at the previous iteration
+        Vector3 previousPA;        // Closest point of object A at the previous iteration
+        Vector3 previousPB;        // Closest point of object B at the previous iteration
+        bool usePreviousClosestPoint = false;
 
         assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1->isConvex());
         assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2->isConvex());
@@ -152,6 +156,10 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
                 break;
             }
 
+            // Keep the closest points of the previous iteration
+            previousV = v;
+            simplex.computeClosestPointsOfAandB(previousPA, previousPB);
+
             // Compute the point of the simplex closest to the origin
             // If the computation of the closest point fails
             if (!simplex.computeClosestPoint(v)) {
@@ -173,6 +181,14 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
                 // Get the new squared distance
                 distSquare = v.lengthSquare();
 
+                // If the distance has increased (because of numerical errors), the closest point of
+                // the previous iteration is the best one
+                if (distSquare > prevDistSquare) {
+                    v = previousV;
+                    distSquare = prevDistSquare;
+                    usePreviousClosestPoint = true;
+                }
+
                 // Contact point has been found
                 contactFound = true;
                 break;
@@ -188,6 +204,10 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
 
             // Compute the closet points of both objects (without the margins)
             simplex.computeClosestPointsOfAandB(pA, pB);
+            if (usePreviousClosestPoint) {
+                pA = previousPA;
+                pB = previousPB;
+            }
 
             // Project those two points on the margins to have the closest points of both
             // object with the margins
-- 
2.43.0


From bf89139356f937f49934b729917b884f88a75d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 43/81] fix: an overlapping pair that is removed and added
 again between two steps goes on with its contact

---
 src/systems/CollisionDetectionSystem.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 1391b90..3ecb7ac 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -331,6 +331,17 @@ void CollisionDetectionSystem::updateOverlappingPairs(const Array<Pair<int32, in
 
                                 // Add the new overlapping pair
                                 mOverlappingPairs.addPair(collider1Index, collider2Index, isShape1Convex && isShape2Convex);
+
+                                // If the same pair has been removed since the last step and its lost contact has not been
+                                // reported yet, its contact goes on
+                                for (uint64 j=0; j < mLostContactPairs.size(); j++) {
+                                    if ((mLostContactPairs[j].collider1Entity == collider1Entity && mLostContactPairs[j].collider2Entity == collider2Entity) ||
+                                        (mLostContactPairs[j].collider1Entity == collider2Entity && mLostContactPairs[j].collider2Entity == collider1Entity)) {
+                                        mOverlappingPairs.getOverlappingPair(pairId)->collidingInPreviousFrame = true;
+                                        mLostContactPairs.removeAt(j);
+                                        break;
+                                    }
+                                }
                             }
                         }
                     }
-- 
2.43.0


From b237528963f95a267e0eac0e0f74004c9f9c815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:54 +0000
Subject: [PATCH 44/81] fix: placing a body elsewhere does not change its
 linear velocity

---
 src/body/RigidBody.cpp | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 158e898..7e4ab32 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -851,19 +851,10 @@ void RigidBody::setAngularVelocity(const Vector3& angularVelocity) {
  */
 void RigidBody::setTransform(const Transform& transform) {
 
-    const Vector3 oldCenterOfMass = mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity);
-
     // Compute the new center of mass in world-space coordinates
     const Vector3& centerOfMassLocal = mWorld.mRigidBodyComponents.getCenterOfMassLocal(mEntity);
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, transform * centerOfMassLocal);
 
-    // Update the linear velocity of the center of mass
-    Vector3 linearVelocity = mWorld.mRigidBodyComponents.getLinearVelocity(mEntity);
-    const Vector3& angularVelocity = mWorld.mRigidBodyComponents.getAngularVelocity(mEntity);
-    const Vector3& centerOfMassWorld = mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity);
-    linearVelocity += angularVelocity.cross(centerOfMassWorld - oldCenterOfMass);
-    mWorld.mRigidBodyComponents.setLinearVelocity(mEntity, linearVelocity);
-
     if (getType() == BodyType::STATIC) {
 
         mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, transform.getPosition());
-- 
2.43.0


From 6b98cbbf98881fcea634831b1b4267c45cec3ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 45/81] fix: keep the constrained position of a static body at
 its center of mass

---
 src/body/RigidBody.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 7e4ab32..0eaae0d 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -87,7 +87,7 @@ void RigidBody::setType(BodyType type) {
         mWorld.mRigidBodyComponents.setSplitAngularVelocity(mEntity, Vector3::zero());
 
         const Transform& transform = getTransform();
-        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, transform.getPosition());
+        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity));
         mWorld.mRigidBodyComponents.setConstrainedOrientation(mEntity, transform.getOrientation());
     }
 
@@ -354,6 +354,11 @@ void RigidBody::setLocalCenterOfMass(const Vector3& centerOfMass) {
     // Compute the center of mass in world-space coordinates
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, mWorld.mTransformComponents.getTransform(mEntity) * centerOfMass);
 
+    // The constrained position (of the center of mass) of a static body is not updated by the simulation
+    if (getType() == BodyType::STATIC) {
+        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity));
+    }
+
     // Update the linear velocity of the center of mass
     Vector3 linearVelocity = mWorld.mRigidBodyComponents.getLinearVelocity(mEntity);
     const Vector3& angularVelocity = mWorld.mRigidBodyComponents.getAngularVelocity(mEntity);
@@ -391,6 +396,11 @@ void RigidBody::updateLocalCenterOfMassFromColliders() {
     mWorld.mRigidBodyComponents.setCenterOfMassLocal(mEntity, centerOfMassLocal);
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, centerOfMassWorld);
 
+    // The constrained position (of the center of mass) of a static body is not updated by the simulation
+    if (getType() == BodyType::STATIC) {
+        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, centerOfMassWorld);
+    }
+
     // Update the linear velocity of the center of mass
     Vector3 linearVelocity = mWorld.mRigidBodyComponents.getLinearVelocity(mEntity);
     const Vector3& angularVelocity = mWorld.mRigidBodyComponents.getAngularVelocity(mEntity);
@@ -573,6 +583,11 @@ void RigidBody::updateMassPropertiesFromColliders() {
     mWorld.mRigidBodyComponents.setCenterOfMassLocal(mEntity, centerOfMassLocal);
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, centerOfMassWorld);
 
+    // The constrained position (of the center of mass) of a static body is not updated by the simulation
+    if (getType() == BodyType::STATIC) {
+        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, centerOfMassWorld);
+    }
+
     // If it is a dynamic body
     const BodyType type = mWorld.mRigidBodyComponents.getBodyType(mEntity);
     if (type == BodyType::DYNAMIC) {
@@ -857,7 +872,7 @@ void RigidBody::setTransform(const Transform& transform) {
 
     if (getType() == BodyType::STATIC) {
 
-        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, transform.getPosition());
+        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, transform * centerOfMassLocal);
         mWorld.mRigidBodyComponents.setConstrainedOrientation(mEntity, transform.getOrientation());
     }
 
-- 
2.43.0


From 390d412ba7622ba79e3c6c3aa2e664399b2b758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 46/81] fix: a slider joint without position correction does
 not end the position correction of the other slider joints

---
 src/systems/SolveSliderJointSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 3f8a721..599acb4 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -524,7 +524,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
 
         // If the error position correction technique is not the non-linear-gauss-seidel, we do
         // do not execute this method
-        if (mJointComponents.mPositionCorrectionTechniques[jointIndex] != JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL) return;
+        if (mJointComponents.mPositionCorrectionTechniques[jointIndex] != JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL) continue;
 
         // Get the bodies entities
         const Entity body1Entity = mJointComponents.mBody1Entities[jointIndex];
-- 
2.43.0


From 7c3a67825b856884f1e5742ef38acb892956840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:40 +0000
Subject: [PATCH 47/81] fix: solve the joints of heavy bodies, whose mass
 matrices have small determinants

---
 include/reactphysics3d/mathematics/Matrix2x2.h | 12 ++++++++++++
 include/reactphysics3d/mathematics/Matrix3x3.h | 12 ++++++++++++
 src/mathematics/Matrix2x2.cpp                  |  2 +-
 src/systems/SolveBallAndSocketJointSystem.cpp  |  4 ++--
 src/systems/SolveFixedJointSystem.cpp          |  8 ++++----
 src/systems/SolveHingeJointSystem.cpp          |  8 ++++----
 src/systems/SolveSliderJointSystem.cpp         |  8 ++++----
 7 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/include/reactphysics3d/mathematics/Matrix2x2.h b/include/reactphysics3d/mathematics/Matrix2x2.h
index 6410012..32fd859 100644
--- a/include/reactphysics3d/mathematics/Matrix2x2.h
+++ b/include/reactphysics3d/mathematics/Matrix2x2.h
@@ -80,6 +80,9 @@ class Matrix2x2 {
         /// Return the trace of the matrix
         decimal getTrace() const;
 
+        /// Return true if the matrix with a given determinant can be safely inverted
+        bool isInvertible(decimal determinant) const;
+
         /// Return the inverse matrix
         Matrix2x2 getInverse() const;
 
@@ -203,6 +206,15 @@ RP3D_FORCE_INLINE decimal Matrix2x2::getDeterminant() const {
     return mRows[0][0] * mRows[1][1] - mRows[1][0] * mRows[0][1];
 }
 
+// Return true if the matrix with a given determinant can be safely inverted
+/// The elements of a matrix can all be small (with the inverse masses of heavy bodies for instance). Therefore,
+/// the determinant of such a matrix is compared relatively to the magnitude of its diagonal elements.
+RP3D_FORCE_INLINE bool Matrix2x2::isInvertible(decimal determinant) const {
+
+    const decimal scale = std::min(std::abs(getTrace()) / decimal(2.0), decimal(1.0));
+    return std::abs(determinant) > MACHINE_EPSILON * scale * scale;
+}
+
 // Return the trace of the matrix
 RP3D_FORCE_INLINE decimal Matrix2x2::getTrace() const {
 
diff --git a/include/reactphysics3d/mathematics/Matrix3x3.h b/include/reactphysics3d/mathematics/Matrix3x3.h
index 9ea7b80..e3a708a 100644
--- a/include/reactphysics3d/mathematics/Matrix3x3.h
+++ b/include/reactphysics3d/mathematics/Matrix3x3.h
@@ -83,6 +83,9 @@ class Matrix3x3 {
         /// Return the trace of the matrix
         decimal getTrace() const;
 
+        /// Return true if the matrix with a given determinant can be safely inverted
+        bool isInvertible(decimal determinant) const;
+
         /// Return the inverse matrix
         Matrix3x3 getInverse() const;
 
@@ -216,6 +219,15 @@ RP3D_FORCE_INLINE decimal Matrix3x3::getDeterminant() const {
             mRows[0][2]*(mRows[1][0]*mRows[2][1]-mRows[2][0]*mRows[1][1]));
 }
 
+// Return true if the matrix with a given determinant can be safely inverted
+/// The elements of a matrix can all be small (with the inverse masses of heavy bodies for instance). Therefore,
+/// the determinant of such a matrix is compared relatively to the magnitude of its diagonal elements.
+RP3D_FORCE_INLINE bool Matrix3x3::isInvertible(decimal determinant) const {
+
+    const decimal scale = std::min(std::abs(getTrace()) / decimal(3.0), decimal(1.0));
+    return std::abs(determinant) > MACHINE_EPSILON * scale * scale * scale;
+}
+
 // Return the trace of the matrix
 RP3D_FORCE_INLINE decimal Matrix3x3::getTrace() const {
 
diff --git a/src/mathematics/Matrix2x2.cpp b/src/mathematics/Matrix2x2.cpp
index 9dd03e5..2cba10a 100644
--- a/src/mathematics/Matrix2x2.cpp
+++ b/src/mathematics/Matrix2x2.cpp
@@ -32,7 +32,7 @@ using namespace reactphysics3d;
 Matrix2x2 Matrix2x2::getInverse(decimal determinant) const {
 
     // Check if the determinant is equal to zero
-    assert(std::abs(determinant) > MACHINE_EPSILON);
+    assert(determinant != decimal(0.0));
 
     decimal invDeterminant = decimal(1.0) / determinant;
 
diff --git a/src/systems/SolveBallAndSocketJointSystem.cpp b/src/systems/SolveBallAndSocketJointSystem.cpp
index 70c851d..6853b77 100644
--- a/src/systems/SolveBallAndSocketJointSystem.cpp
+++ b/src/systems/SolveBallAndSocketJointSystem.cpp
@@ -100,7 +100,7 @@ void SolveBallAndSocketJointSystem::initBeforeSolve() {
         // Compute the inverse mass matrix K^-1
         mBallAndSocketJointComponents.mInverseMassMatrix[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mBallAndSocketJointComponents.mInverseMassMatrix[i] = massMatrix.getInverse(massMatrixDeterminant);
@@ -398,7 +398,7 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
                                skewSymmetricMatrixU2 * mBallAndSocketJointComponents.mI2[i] * skewSymmetricMatrixU2.getTranspose();
         mBallAndSocketJointComponents.mInverseMassMatrix[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
diff --git a/src/systems/SolveFixedJointSystem.cpp b/src/systems/SolveFixedJointSystem.cpp
index 048da03..4387f31 100644
--- a/src/systems/SolveFixedJointSystem.cpp
+++ b/src/systems/SolveFixedJointSystem.cpp
@@ -93,7 +93,7 @@ void SolveFixedJointSystem::initBeforeSolve() {
         // Compute the inverse mass matrix K^-1 for the 3 translation constraints
         mFixedJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mFixedJointComponents.mInverseMassMatrixTranslation[i] = massMatrix.getInverse(massMatrixDeterminant);
@@ -116,7 +116,7 @@ void SolveFixedJointSystem::initBeforeSolve() {
         // Compute the inverse of the mass matrix K=JM^-1J^t for the 3 rotation contraints (3x3 matrix)
         mFixedJointComponents.mInverseMassMatrixRotation[i] = mFixedJointComponents.mI1[i] + mFixedJointComponents.mI2[i];
         decimal massMatrixRotationDeterminant = mFixedJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (mFixedJointComponents.mInverseMassMatrixRotation[i].isInvertible(massMatrixRotationDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mFixedJointComponents.mInverseMassMatrixRotation[i] = mFixedJointComponents.mInverseMassMatrixRotation[i].getInverse(massMatrixRotationDeterminant);
@@ -342,7 +342,7 @@ void SolveFixedJointSystem::solvePositionConstraint() {
                                skewSymmetricMatrixU2 * mFixedJointComponents.mI2[i] * skewSymmetricMatrixU2.getTranspose();
         mFixedJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
@@ -389,7 +389,7 @@ void SolveFixedJointSystem::solvePositionConstraint() {
         // contraints (3x3 matrix)
         mFixedJointComponents.mInverseMassMatrixRotation[i] = mFixedJointComponents.mI1[i] + mFixedJointComponents.mI2[i];
         decimal massMatrixRotationDeterminant = mFixedJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (mFixedJointComponents.mInverseMassMatrixRotation[i].isInvertible(massMatrixRotationDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index f96e28a..7fd3614 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -110,7 +110,7 @@ void SolveHingeJointSystem::initBeforeSolve() {
         Matrix3x3& inverseMassMatrixTranslation = mHingeJointComponents.mInverseMassMatrixTranslation[i];
         inverseMassMatrixTranslation.setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mHingeJointComponents.mInverseMassMatrixTranslation[i] = massMatrix.getInverse(massMatrixDeterminant);
@@ -144,7 +144,7 @@ void SolveHingeJointSystem::initBeforeSolve() {
         const Matrix2x2 matrixKRotation(el11, el12, el21, el22);
         mHingeJointComponents.mInverseMassMatrixRotation[i].setToZero();
         decimal matrixKRotationDeterminant = matrixKRotation.getDeterminant();
-        if (std::abs(matrixKRotationDeterminant) > MACHINE_EPSILON) {
+        if (matrixKRotation.isInvertible(matrixKRotationDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mHingeJointComponents.mInverseMassMatrixRotation[i] = matrixKRotation.getInverse(matrixKRotationDeterminant);
@@ -620,7 +620,7 @@ void SolveHingeJointSystem::solvePositionConstraint() {
         const Matrix2x2 matrixKRotation(el11, el12, el21, el22);
         mHingeJointComponents.mInverseMassMatrixRotation[i].setToZero();
         decimal matrixDeterminant = matrixKRotation.getDeterminant();
-        if (std::abs(matrixDeterminant) > MACHINE_EPSILON) {
+        if (matrixKRotation.isInvertible(matrixDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mHingeJointComponents.mInverseMassMatrixRotation[i] = matrixKRotation.getInverse(matrixDeterminant);
@@ -666,7 +666,7 @@ void SolveHingeJointSystem::solvePositionConstraint() {
                                skewSymmetricMatrixU2 * mHingeJointComponents.mI2[i] * skewSymmetricMatrixU2.getTranspose();
         mHingeJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         matrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(matrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(matrixDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 599acb4..788bb40 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -185,7 +185,7 @@ void SolveSliderJointSystem::initBeforeSolve() {
         Matrix2x2 matrixKTranslation(el11, el12, el21, el22);
         mSliderJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal matrixKTranslationDeterminant = matrixKTranslation.getDeterminant();
-        if (std::abs(matrixKTranslationDeterminant) > MACHINE_EPSILON) {
+        if (matrixKTranslation.isInvertible(matrixKTranslationDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
@@ -197,7 +197,7 @@ void SolveSliderJointSystem::initBeforeSolve() {
         // contraints (3x3 matrix)
         mSliderJointComponents.mInverseMassMatrixRotation[i] = i1 + i2;
         decimal massMatrixRotationDeterminant = mSliderJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (mSliderJointComponents.mInverseMassMatrixRotation[i].isInvertible(massMatrixRotationDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
@@ -700,7 +700,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         // contraints (3x3 matrix)
         mSliderJointComponents.mInverseMassMatrixRotation[i] = mSliderJointComponents.mI1[i] + mSliderJointComponents.mI2[i];
         decimal massMatrixRotationDeterminant = mSliderJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (mSliderJointComponents.mInverseMassMatrixRotation[i].isInvertible(massMatrixRotationDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC || mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
@@ -784,7 +784,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         Matrix2x2 matrixKTranslation(el11, el12, el21, el22);
         mSliderJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal matrixKTranslationDeterminant = matrixKTranslation.getDeterminant();
-        if (std::abs(matrixKTranslationDeterminant) > MACHINE_EPSILON) {
+        if (matrixKTranslation.isInvertible(matrixKTranslationDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC || mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
-- 
2.43.0


From f5089680e8fc4bf9b9c3a0a58f1496de24a95e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 48/81] fix: report the reaction force of a slider joint with
 the axes its impulses are expressed with

---
 src/systems/SolveSliderJointSystem.cpp | 30 ++++++++++++--------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 788bb40..94587d1 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -554,9 +554,6 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         const Vector3& r1 = mSliderJointComponents.mR1[i];
         const Vector3& r2 = mSliderJointComponents.mR2[i];
 
-        const Vector3& n1 = mSliderJointComponents.mN1[i];
-        const Vector3& n2 = mSliderJointComponents.mN2[i];
-
         Vector3& x1 = mRigidBodyComponents.mConstrainedPositions[componentIndexBody1];
         Vector3& x2 = mRigidBodyComponents.mConstrainedPositions[componentIndexBody2];
 
@@ -564,13 +561,14 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         const Vector3 u = x2 + r2 - x1 - r1;
 
         // Compute the two orthogonal vectors to the slider axis in world-space
-        mSliderJointComponents.mSliderAxisWorld[i] = q1 * mSliderJointComponents.mSliderAxisBody1[i];
-        mSliderJointComponents.mSliderAxisWorld[i].normalize();
-        mSliderJointComponents.mN1[i] = mSliderJointComponents.mSliderAxisWorld[i].getOneUnitOrthogonalVector();
-        mSliderJointComponents.mN2[i] = mSliderJointComponents.mSliderAxisWorld[i].cross(n1);
+        // (those of the velocity constraints are kept because the impulses are expressed with them)
+        Vector3 sliderAxisWorld = q1 * mSliderJointComponents.mSliderAxisBody1[i];
+        sliderAxisWorld.normalize();
+        const Vector3 n1 = sliderAxisWorld.getOneUnitOrthogonalVector();
+        const Vector3 n2 = sliderAxisWorld.cross(n1);
 
         // Check if the limit constraints are violated or not
-        decimal uDotSliderAxis = u.dot(mSliderJointComponents.mSliderAxisWorld[i]);
+        decimal uDotSliderAxis = u.dot(sliderAxisWorld);
         decimal lowerLimitError = uDotSliderAxis - mSliderJointComponents.getLowerLimit(jointEntity);
         decimal upperLimitError = mSliderJointComponents.getUpperLimit(jointEntity) - uDotSliderAxis;
         mSliderJointComponents.mIsLowerLimitViolated[i] = lowerLimitError <= 0;
@@ -579,11 +577,11 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         // Compute the cross products used in the Jacobians
         mSliderJointComponents.mR2CrossN1[i] = r2.cross(n1);
         mSliderJointComponents.mR2CrossN2[i] = r2.cross(n2);
-        mSliderJointComponents.mR2CrossSliderAxis[i] = r2.cross(mSliderJointComponents.mSliderAxisWorld[i]);
+        mSliderJointComponents.mR2CrossSliderAxis[i] = r2.cross(sliderAxisWorld);
         const Vector3 r1PlusU = r1 + u;
         mSliderJointComponents.mR1PlusUCrossN1[i] = r1PlusU.cross(n1);
         mSliderJointComponents.mR1PlusUCrossN2[i] = r1PlusU.cross(n2);
-        mSliderJointComponents.mR1PlusUCrossSliderAxis[i] = r1PlusU.cross(mSliderJointComponents.mSliderAxisWorld[i]);
+        mSliderJointComponents.mR1PlusUCrossSliderAxis[i] = r1PlusU.cross(sliderAxisWorld);
 
         const Vector3& r2CrossN1 = mSliderJointComponents.mR2CrossN1[i];
         const Vector3& r2CrossN2 = mSliderJointComponents.mR2CrossN2[i];
@@ -621,14 +619,14 @@ void SolveSliderJointSystem::solvePositionConstraint() {
                 const Vector3& r1 = mSliderJointComponents.mR1[i];
                 const Vector3& r2 = mSliderJointComponents.mR2[i];
                 const Vector3 u = x2 + r2 - x1 - r1;
-                decimal uDotSliderAxis = u.dot(mSliderJointComponents.mSliderAxisWorld[i]);
+                decimal uDotSliderAxis = u.dot(sliderAxisWorld);
                 decimal lowerLimitError = uDotSliderAxis - mSliderJointComponents.mLowerLimit[i];
 
                 // Compute the Lagrange multiplier lambda for the lower limit constraint
                 decimal lambdaLowerLimit = mSliderJointComponents.mInverseMassMatrixLimit[i] * (-lowerLimitError);
 
                 // Compute the impulse P=J^T * lambda for the lower limit constraint of body 1
-                const Vector3 linearImpulseBody1 = -lambdaLowerLimit * mSliderJointComponents.mSliderAxisWorld[i];
+                const Vector3 linearImpulseBody1 = -lambdaLowerLimit * sliderAxisWorld;
                 const Vector3 angularImpulseBody1 = -lambdaLowerLimit * r1PlusUCrossSliderAxis;
 
                 // Apply the impulse to the body 1
@@ -641,7 +639,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
                 q1.normalize();
 
                 // Compute the impulse P=J^T * lambda for the lower limit constraint of body 2
-                const Vector3 linearImpulseBody2 = lambdaLowerLimit * mSliderJointComponents.mSliderAxisWorld[i];
+                const Vector3 linearImpulseBody2 = lambdaLowerLimit * sliderAxisWorld;
                 const Vector3 angularImpulseBody2 = lambdaLowerLimit * r2CrossSliderAxis;
 
                 // Apply the impulse to the body 2
@@ -660,14 +658,14 @@ void SolveSliderJointSystem::solvePositionConstraint() {
                 const Vector3& r1 = mSliderJointComponents.mR1[i];
                 const Vector3& r2 = mSliderJointComponents.mR2[i];
                 const Vector3 u = x2 + r2 - x1 - r1;
-                decimal uDotSliderAxis = u.dot(mSliderJointComponents.mSliderAxisWorld[i]);
+                decimal uDotSliderAxis = u.dot(sliderAxisWorld);
                 decimal upperLimitError = mSliderJointComponents.mUpperLimit[i] - uDotSliderAxis;
 
                 // Compute the Lagrange multiplier lambda for the upper limit constraint
                 decimal lambdaUpperLimit = mSliderJointComponents.mInverseMassMatrixLimit[i] * (-upperLimitError);
 
                 // Compute the impulse P=J^T * lambda for the upper limit constraint of body 1
-                const Vector3 linearImpulseBody1 = lambdaUpperLimit * mSliderJointComponents.mSliderAxisWorld[i];
+                const Vector3 linearImpulseBody1 = lambdaUpperLimit * sliderAxisWorld;
                 const Vector3 angularImpulseBody1 = lambdaUpperLimit * r1PlusUCrossSliderAxis;
 
                 // Apply the impulse to the body 1
@@ -680,7 +678,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
                 q1.normalize();
 
                 // Compute the impulse P=J^T * lambda for the upper limit constraint of body 2
-                const Vector3 linearImpulseBody2 = -lambdaUpperLimit * mSliderJointComponents.mSliderAxisWorld[i];
+                const Vector3 linearImpulseBody2 = -lambdaUpperLimit * sliderAxisWorld;
                 const Vector3 angularImpulseBody2 = -lambdaUpperLimit * r2CrossSliderAxis;
 
                 // Apply the impulse to the body 2
-- 
2.43.0


From e922effd851d758663c2aa31cebde58afc8c59e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:49 +0000
Subject: [PATCH 49/81] fix: report the reaction torque of a hinge joint with
 the axes its impulses are expressed with

---
 src/systems/SolveHingeJointSystem.cpp | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 7fd3614..15df502 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -504,23 +504,16 @@ void SolveHingeJointSystem::solvePositionConstraint() {
         Matrix3x3 skewSymmetricMatrixU2 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR2World[i]);
 
 
-        Vector3& b2CrossA1 = mHingeJointComponents.mB2CrossA1[i];
-        Vector3& c2CrossA1 = mHingeJointComponents.mC2CrossA1[i];
-
-        Vector3& a1 = mHingeJointComponents.mA1[i];
-
-        // Compute vectors needed in the Jacobian
-        a1 = q1 * mHingeJointComponents.mHingeLocalAxisBody1[i];
+        // Compute vectors needed in the Jacobian (those of the velocity constraints are kept
+        // because the impulses are expressed with them)
+        Vector3 a1 = q1 * mHingeJointComponents.mHingeLocalAxisBody1[i];
         Vector3 a2 = q2 * mHingeJointComponents.mHingeLocalAxisBody2[i];
         a1.normalize();
-        mHingeJointComponents.mA1[i] = a1;
         a2.normalize();
         const Vector3 b2 = a2.getOneUnitOrthogonalVector();
         const Vector3 c2 = a2.cross(b2);
-        b2CrossA1 = b2.cross(a1);
-        mHingeJointComponents.mB2CrossA1[i] = b2CrossA1;
-        c2CrossA1 = c2.cross(a1);
-        mHingeJointComponents.mC2CrossA1[i] = c2CrossA1;
+        const Vector3 b2CrossA1 = b2.cross(a1);
+        const Vector3 c2CrossA1 = c2.cross(a1);
 
         // Compute the current angle around the hinge axis
         const decimal hingeAngle = computeCurrentHingeAngle(jointEntity, q1, q2);
@@ -537,7 +530,6 @@ void SolveHingeJointSystem::solvePositionConstraint() {
 
             decimal inverseMassMatrixLimitMotor = mHingeJointComponents.mInverseMassMatrixLimitMotor[i];
 
-            Vector3& a1 = mHingeJointComponents.mA1[i];
 
             if (mHingeJointComponents.mIsLowerLimitViolated[i] || mHingeJointComponents.mIsUpperLimitViolated[i]) {
 
-- 
2.43.0


From 84d5847c1bde7f2ee201623291de8ec8860de0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:08 +0000
Subject: [PATCH 50/81] fix: measure the angle of a hinge joint relative to the
 orientation of its first body

---
 src/constraint/HingeJoint.cpp         | 6 ++----
 src/systems/SolveHingeJointSystem.cpp | 9 +++------
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/constraint/HingeJoint.cpp b/src/constraint/HingeJoint.cpp
index 1743034..fcf73a0 100644
--- a/src/constraint/HingeJoint.cpp
+++ b/src/constraint/HingeJoint.cpp
@@ -74,11 +74,9 @@ HingeJoint::HingeJoint(Entity entity, PhysicsWorld &world, const HingeJointInfo&
     mWorld.mHingeJointsComponents.setHingeLocalAxisBody1(mEntity, hingeLocalAxisBody1);
     mWorld.mHingeJointsComponents.setHingeLocalAxisBody2(mEntity, hingeLocalAxisBody2);
 
-    // Compute the inverse of the initial orientation difference between the two bodies
-    Quaternion initOrientationDifferenceInv = transform2.getOrientation() *
-                                    transform1.getOrientation().getInverse();
+    // Compute the inverse of the initial rotation from body 1 to body 2 (in body 1 space)
+    Quaternion initOrientationDifferenceInv = transform2.getOrientation().getInverse() * transform1.getOrientation();
     initOrientationDifferenceInv.normalize();
-    initOrientationDifferenceInv.inverse();
     mWorld.mHingeJointsComponents.setInitOrientationDifferenceInv(mEntity, initOrientationDifferenceInv);
 }
 
diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 15df502..edd8770 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -752,12 +752,9 @@ decimal SolveHingeJointSystem::computeCurrentHingeAngle(Entity jointEntity, cons
 
     decimal hingeAngle;
 
-    // Compute the current orientation difference between the two bodies
-    Quaternion currentOrientationDiff = orientationBody2 * orientationBody1.getInverse();
-    currentOrientationDiff.normalize();
-
     // Compute the relative rotation considering the initial orientation difference
-    Quaternion relativeRotation = currentOrientationDiff * mHingeJointComponents.getInitOrientationDifferenceInv(jointEntity);
+    Quaternion relativeRotation = orientationBody2 * mHingeJointComponents.getInitOrientationDifferenceInv(jointEntity) *
+                                  orientationBody1.getInverse();
     relativeRotation.normalize();
 
     // A quaternion q = [cos(theta/2); sin(theta/2) * rotAxis] where rotAxis is a unit
@@ -771,7 +768,7 @@ decimal SolveHingeJointSystem::computeCurrentHingeAngle(Entity jointEntity, cons
     decimal sinHalfAngleAbs = relativeRotation.getVectorV().length();
 
     // Compute the dot product of the relative rotation axis and the hinge axis
-    decimal dotProduct = relativeRotation.getVectorV().dot(mHingeJointComponents.getA1(jointEntity));
+    decimal dotProduct = relativeRotation.getVectorV().dot(orientationBody1 * mHingeJointComponents.getHingeLocalAxisBody1(jointEntity));
 
     // If the relative rotation axis and the hinge axis are pointing the same direction
     if (dotProduct >= decimal(0.0)) {
-- 
2.43.0


From f8cce50ad607358c2d350efffbcf2b0b5bf7699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:59 +0000
Subject: [PATCH 51/81] fix: correct the angle of a hinge joint beyond its
 limits with the current mass matrix instead of the previous one

---
 src/systems/SolveHingeJointSystem.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index edd8770..66f627a 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -528,15 +528,14 @@ void SolveHingeJointSystem::solvePositionConstraint() {
 
         if (mHingeJointComponents.mIsLimitEnabled[i]) {
 
-            decimal inverseMassMatrixLimitMotor = mHingeJointComponents.mInverseMassMatrixLimitMotor[i];
-
+            decimal& inverseMassMatrixLimitMotor = mHingeJointComponents.mInverseMassMatrixLimitMotor[i];
 
             if (mHingeJointComponents.mIsLowerLimitViolated[i] || mHingeJointComponents.mIsUpperLimitViolated[i]) {
 
                 // Compute the inverse of the mass matrix K=JM^-1J^t for the limits (1x1 matrix)
-                mHingeJointComponents.mInverseMassMatrixLimitMotor[i] = a1.dot(mHingeJointComponents.mI1[i] * a1) + a1.dot(mHingeJointComponents.mI2[i] * a1);
-                mHingeJointComponents.mInverseMassMatrixLimitMotor[i] = (inverseMassMatrixLimitMotor > decimal(0.0)) ?
-                                          decimal(1.0) / mHingeJointComponents.mInverseMassMatrixLimitMotor[i] : decimal(0.0);
+                inverseMassMatrixLimitMotor = a1.dot(mHingeJointComponents.mI1[i] * a1) + a1.dot(mHingeJointComponents.mI2[i] * a1);
+                inverseMassMatrixLimitMotor = (inverseMassMatrixLimitMotor > decimal(0.0)) ?
+                                          decimal(1.0) / inverseMassMatrixLimitMotor : decimal(0.0);
             }
 
             // If the lower limit is violated
-- 
2.43.0


From 550760ada7330f72f0dd4a65381c29b57116ce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 52/81] fix: the motor of a hinge joint drives it towards the
 motor speed instead of away from it

---
 src/systems/SolveHingeJointSystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 66f627a..0980474 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -390,11 +390,11 @@ void SolveHingeJointSystem::solveVelocityConstraint() {
         if (mHingeJointComponents.mIsMotorEnabled[i]) {
 
             // Compute J*v for the motor
-            const decimal JvMotor = a1.dot(w1 - w2);
+            const decimal JvMotor = a1.dot(w2 - w1);
 
             // Compute the Lagrange multiplier lambda for the motor
             const decimal maxMotorImpulse = mHingeJointComponents.mMaxMotorTorque[i] * mTimeStep;
-            decimal deltaLambdaMotor = mHingeJointComponents.mInverseMassMatrixLimitMotor[i] * (-JvMotor - mHingeJointComponents.mMotorSpeed[i]);
+            decimal deltaLambdaMotor = mHingeJointComponents.mInverseMassMatrixLimitMotor[i] * (-JvMotor + mHingeJointComponents.mMotorSpeed[i]);
             decimal lambdaTemp = mHingeJointComponents.mImpulseMotor[i];
             mHingeJointComponents.mImpulseMotor[i] = clamp(mHingeJointComponents.mImpulseMotor[i] + deltaLambdaMotor, -maxMotorImpulse, maxMotorImpulse);
             deltaLambdaMotor = mHingeJointComponents.mImpulseMotor[i] - lambdaTemp;
-- 
2.43.0


From 616b667d89c383da5950e716577909c9a5f21266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 53/81] fix: correct the cone limit of a ball-and-socket joint
 by its error instead of overshooting when the cone angle is small

---
 .../systems/SolveBallAndSocketJointSystem.h       | 15 +++++++++++++++
 src/systems/SolveBallAndSocketJointSystem.cpp     |  4 ++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h b/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h
index 84441fd..9f87697 100644
--- a/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h
+++ b/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h
@@ -114,6 +114,9 @@ class SolveBallAndSocketJointSystem {
         /// Return the current cone angle (for the cone limit)
         static decimal computeCurrentConeHalfAngle(const Vector3& coneLimitWorldAxisBody1, const Vector3& coneLimitWorldAxisBody2);
 
+        /// Return the unit axis around which the cone angle increases
+        static Vector3 computeConeLimitAxis(const Vector3& coneLimitWorldAxisBody1, const Vector3& coneLimitWorldAxisBody2);
+
 #ifdef IS_RP3D_PROFILING_ENABLED
 
         /// Set the profiler
@@ -153,6 +156,18 @@ RP3D_FORCE_INLINE decimal SolveBallAndSocketJointSystem::computeCurrentConeHalfA
     return std::acos(coneLimitWorldAxisBody1.dot(coneLimitWorldAxisBody2));
 }
 
+// Return the unit axis around which the cone angle increases
+/**
+ * @return The unit axis, or the zero vector if the two vectors are parallel
+ */
+RP3D_FORCE_INLINE Vector3 SolveBallAndSocketJointSystem::computeConeLimitAxis(const Vector3& coneLimitWorldAxisBody1,
+                                                                              const Vector3& coneLimitWorldAxisBody2) {
+
+    const Vector3 axis = coneLimitWorldAxisBody1.cross(coneLimitWorldAxisBody2);
+    const decimal length = axis.length();
+    return length > MACHINE_EPSILON ? axis / length : Vector3::zero();
+}
+
 }
 
 #endif
diff --git a/src/systems/SolveBallAndSocketJointSystem.cpp b/src/systems/SolveBallAndSocketJointSystem.cpp
index 6853b77..cda243f 100644
--- a/src/systems/SolveBallAndSocketJointSystem.cpp
+++ b/src/systems/SolveBallAndSocketJointSystem.cpp
@@ -118,7 +118,7 @@ void SolveBallAndSocketJointSystem::initBeforeSolve() {
 
         const Vector3 r1WorldUnit = r1World.getUnit();
         const Vector3 r2WorldUnit = r2World.getUnit();
-        mBallAndSocketJointComponents.mConeLimitACrossB[i] = r1WorldUnit.cross(-r2WorldUnit);
+        mBallAndSocketJointComponents.mConeLimitACrossB[i] = computeConeLimitAxis(r1WorldUnit, -r2WorldUnit);
 
         // Compute the current angle around the hinge axis
         decimal coneAngle = computeCurrentConeHalfAngle(r1WorldUnit, -r2WorldUnit);
@@ -348,7 +348,7 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
             // Check if the cone limit constraints is violated or not
             const Vector3 r1WorldUnit = r1World.getUnit();
             const Vector3 r2WorldUnit = r2World.getUnit();
-            mBallAndSocketJointComponents.mConeLimitACrossB[i] = r1WorldUnit.cross(-r2WorldUnit);
+            mBallAndSocketJointComponents.mConeLimitACrossB[i] = computeConeLimitAxis(r1WorldUnit, -r2WorldUnit);
             decimal coneAngle = computeCurrentConeHalfAngle(r1WorldUnit, -r2WorldUnit);
             decimal coneLimitError = mBallAndSocketJointComponents.mConeLimitHalfAngle[i] - coneAngle;
             mBallAndSocketJointComponents.mIsConeLimitViolated[i] = coneLimitError < 0;
-- 
2.43.0


From cc20959cdc11f894e5d721611b58980485fbd2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 54/81] fix: the cone angle of a ball-and-socket joint with
 aligned bodies is zero instead of not a number

---
 include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h b/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h
index 9f87697..30e6983 100644
--- a/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h
+++ b/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h
@@ -153,7 +153,7 @@ RP3D_FORCE_INLINE void SolveBallAndSocketJointSystem::setIsWarmStartingActive(bo
 RP3D_FORCE_INLINE decimal SolveBallAndSocketJointSystem::computeCurrentConeHalfAngle(const Vector3& coneLimitWorldAxisBody1,
                                                                                      const Vector3& coneLimitWorldAxisBody2) {
 
-    return std::acos(coneLimitWorldAxisBody1.dot(coneLimitWorldAxisBody2));
+    return std::acos(clamp(coneLimitWorldAxisBody1.dot(coneLimitWorldAxisBody2), decimal(-1.0), decimal(1.0)));
 }
 
 // Return the unit axis around which the cone angle increases
-- 
2.43.0


From ebd72eac6a79145949306252ff8dc95f890e0d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 55/81] fix: report the torque of the cone limit in the
 reaction torque of a ball-and-socket joint

---
 .../components/BallAndSocketJointComponents.h         |  1 +
 src/constraint/BallAndSocketJoint.cpp                 |  7 ++++++-
 src/systems/SolveBallAndSocketJointSystem.cpp         | 11 ++++++-----
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/reactphysics3d/components/BallAndSocketJointComponents.h b/include/reactphysics3d/components/BallAndSocketJointComponents.h
index 654662f..2c02ba2 100644
--- a/include/reactphysics3d/components/BallAndSocketJointComponents.h
+++ b/include/reactphysics3d/components/BallAndSocketJointComponents.h
@@ -246,6 +246,7 @@ class BallAndSocketJointComponents : public Components {
 
         friend class BroadPhaseSystem;
         friend class SolveBallAndSocketJointSystem;
+        friend class BallAndSocketJoint;
 };
 
 // Return a pointer to a given joint
diff --git a/src/constraint/BallAndSocketJoint.cpp b/src/constraint/BallAndSocketJoint.cpp
index 1476b56..4fc21fb 100644
--- a/src/constraint/BallAndSocketJoint.cpp
+++ b/src/constraint/BallAndSocketJoint.cpp
@@ -151,7 +151,12 @@ Vector3 BallAndSocketJoint::getReactionForce(decimal timeStep) const {
  */
 Vector3 BallAndSocketJoint::getReactionTorque(decimal timeStep) const {
     assert(timeStep > MACHINE_EPSILON);
-    return Vector3(0, 0, 0);
+
+    const uint32 jointIndex = mWorld.mBallAndSocketJointsComponents.getEntityIndex(mEntity);
+
+    // The only torque is the one of the cone limit
+    return -mWorld.mBallAndSocketJointsComponents.mConeLimitImpulse[jointIndex] *
+            mWorld.mBallAndSocketJointsComponents.mConeLimitACrossB[jointIndex] / timeStep;
 }
 
 // Return a string representation
diff --git a/src/systems/SolveBallAndSocketJointSystem.cpp b/src/systems/SolveBallAndSocketJointSystem.cpp
index cda243f..4eb6cc4 100644
--- a/src/systems/SolveBallAndSocketJointSystem.cpp
+++ b/src/systems/SolveBallAndSocketJointSystem.cpp
@@ -348,7 +348,8 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
             // Check if the cone limit constraints is violated or not
             const Vector3 r1WorldUnit = r1World.getUnit();
             const Vector3 r2WorldUnit = r2World.getUnit();
-            mBallAndSocketJointComponents.mConeLimitACrossB[i] = computeConeLimitAxis(r1WorldUnit, -r2WorldUnit);
+            // (the axis of the velocity constraint is kept because the impulse is expressed with it)
+            const Vector3 coneLimitAxis = computeConeLimitAxis(r1WorldUnit, -r2WorldUnit);
             decimal coneAngle = computeCurrentConeHalfAngle(r1WorldUnit, -r2WorldUnit);
             decimal coneLimitError = mBallAndSocketJointComponents.mConeLimitHalfAngle[i] - coneAngle;
             mBallAndSocketJointComponents.mIsConeLimitViolated[i] = coneLimitError < 0;
@@ -357,8 +358,8 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
             if (mBallAndSocketJointComponents.mIsConeLimitViolated[i]) {
 
                 // Compute the inverse of the mass matrix K=JM^-1J^t for the cone limit (1x1 matrix)
-                decimal inverseMassMatrixConeLimit = mBallAndSocketJointComponents.mConeLimitACrossB[i].dot(mBallAndSocketJointComponents.mI1[i] * mBallAndSocketJointComponents.mConeLimitACrossB[i]) +
-                                                 mBallAndSocketJointComponents.mConeLimitACrossB[i].dot(mBallAndSocketJointComponents.mI2[i] * mBallAndSocketJointComponents.mConeLimitACrossB[i]);
+                decimal inverseMassMatrixConeLimit = coneLimitAxis.dot(mBallAndSocketJointComponents.mI1[i] * coneLimitAxis) +
+                                                 coneLimitAxis.dot(mBallAndSocketJointComponents.mI2[i] * coneLimitAxis);
                 mBallAndSocketJointComponents.mInverseMassMatrixConeLimit[i] = (inverseMassMatrixConeLimit > decimal(0.0)) ?
                                                                                decimal(1.0) / inverseMassMatrixConeLimit : decimal(0.0);
 
@@ -366,7 +367,7 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
                 decimal lambdaConeLimit = mBallAndSocketJointComponents.mInverseMassMatrixConeLimit[i] * (-coneLimitError );
 
                 // Compute the impulse P=J^T * lambda of body 1
-                const Vector3 angularImpulseBody1 = lambdaConeLimit * mBallAndSocketJointComponents.mConeLimitACrossB[i];
+                const Vector3 angularImpulseBody1 = lambdaConeLimit * coneLimitAxis;
 
                 // Compute the pseudo velocity of body 1
                 const Vector3 w1 = mRigidBodyComponents.mAngularLockAxisFactors[componentIndexBody1] * (mBallAndSocketJointComponents.mI1[i] * angularImpulseBody1);
@@ -376,7 +377,7 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
                 q1.normalize();
 
                 // Compute the impulse P=J^T * lambda of body 2
-                const Vector3 angularImpulseBody2 = -lambdaConeLimit * mBallAndSocketJointComponents.mConeLimitACrossB[i];
+                const Vector3 angularImpulseBody2 = -lambdaConeLimit * coneLimitAxis;
 
                 // Compute the pseudo velocity of body 2
                 const Vector3 w2 = mRigidBodyComponents.mAngularLockAxisFactors[componentIndexBody2] * (mBallAndSocketJointComponents.mI2[i] * angularImpulseBody2);
-- 
2.43.0


From 4d108358bea25b5b923ac9fb33d5150f4c7d28f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 56/81] fix: compute the mass matrix of the limits of a slider
 joint with the current axis instead of the one of the previous step

---
 src/systems/SolveSliderJointSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 94587d1..2638516 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -97,6 +97,7 @@ void SolveSliderJointSystem::initBeforeSolve() {
         mSliderJointComponents.mR1PlusUCrossN1[i] = r1PlusU.cross(mSliderJointComponents.mN1[i]);
         mSliderJointComponents.mR1PlusUCrossN2[i] = r1PlusU.cross(mSliderJointComponents.mN2[i]);
         mSliderJointComponents.mR1PlusUCrossSliderAxis[i] = r1PlusU.cross(mSliderJointComponents.mSliderAxisWorld[i]);
+        mSliderJointComponents.mR2CrossSliderAxis[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mSliderAxisWorld[i]);
 
         // Check if the limit constraints are violated or not
         decimal uDotSliderAxis = u.dot(mSliderJointComponents.mSliderAxisWorld[i]);
@@ -155,7 +156,6 @@ void SolveSliderJointSystem::initBeforeSolve() {
         // Compute the cross products used in the Jacobians
         mSliderJointComponents.mR2CrossN1[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mN1[i]);
         mSliderJointComponents.mR2CrossN2[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mN2[i]);
-        mSliderJointComponents.mR2CrossSliderAxis[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mSliderAxisWorld[i]);
 
         const Vector3& r2CrossN1 = mSliderJointComponents.mR2CrossN1[i];
         const Vector3& r2CrossN2 = mSliderJointComponents.mR2CrossN2[i];
-- 
2.43.0


From 8ceea3d649a27c3fc4acccd63079385ae8d49b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:05 +0000
Subject: [PATCH 57/81] fix: the motor of a slider joint moves the bodies along
 the slider axis at the motor speed and acts at the anchor like its limits

---
 src/systems/SolveSliderJointSystem.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 2638516..a03e15d 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -219,8 +219,13 @@ void SolveSliderJointSystem::initBeforeSolve() {
             const decimal body2MassInverse = mRigidBodyComponents.mInverseMasses[componentIndexBody2];
             const decimal sumInverseMass = body1MassInverse + body2MassInverse;
 
+            const Vector3& r2CrossSliderAxis = mSliderJointComponents.mR2CrossSliderAxis[i];
+            const Vector3& r1PlusUCrossSliderAxis = mSliderJointComponents.mR1PlusUCrossSliderAxis[i];
+
             // Compute the inverse of mass matrix K=JM^-1J^t for the motor (1x1 matrix)
-            mSliderJointComponents.mInverseMassMatrixMotor[i] = sumInverseMass;
+            mSliderJointComponents.mInverseMassMatrixMotor[i] = sumInverseMass +
+                                      r1PlusUCrossSliderAxis.dot(mSliderJointComponents.mI1[i] * r1PlusUCrossSliderAxis) +
+                                      r2CrossSliderAxis.dot(mSliderJointComponents.mI2[i] * r2CrossSliderAxis);
             mSliderJointComponents.mInverseMassMatrixMotor[i] = (mSliderJointComponents.mInverseMassMatrixMotor[i] > decimal(0.0)) ?
                         decimal(1.0) / mSliderJointComponents.mInverseMassMatrixMotor[i] : decimal(0.0);
         }
@@ -292,6 +297,7 @@ void SolveSliderJointSystem::warmstart() {
 
         // Compute the impulse P=J^T * lambda for the motor constraint of body 1
         linearImpulseBody1 += impulseMotor;
+        angularImpulseBody1 += mSliderJointComponents.mImpulseMotor[i] * mSliderJointComponents.mR1PlusUCrossSliderAxis[i];
 
         // Apply the impulse to the body 1
         v1 += inverseMassBody1 * mRigidBodyComponents.mLinearLockAxisFactors[componentIndexBody1] * linearImpulseBody1;
@@ -311,6 +317,7 @@ void SolveSliderJointSystem::warmstart() {
 
         // Compute the impulse P=J^T * lambda for the motor constraint of body 2
         linearImpulseBody2 += -impulseMotor;
+        angularImpulseBody2 += -mSliderJointComponents.mImpulseMotor[i] * mSliderJointComponents.mR2CrossSliderAxis[i];
 
         // Apply the impulse to the body 2
         v2 += inverseMassBody2 * mRigidBodyComponents.mLinearLockAxisFactors[componentIndexBody2] * linearImpulseBody2;
@@ -436,7 +443,8 @@ void SolveSliderJointSystem::solveVelocityConstraint() {
         if (mSliderJointComponents.mIsMotorEnabled[i]) {
 
             // Compute J*v for the motor
-            const decimal JvMotor = sliderAxisWorld.dot(v1) - sliderAxisWorld.dot(v2);
+            const decimal JvMotor = sliderAxisWorld.dot(v1) + r1PlusUCrossSliderAxis.dot(w1)
+                                    - sliderAxisWorld.dot(v2) - r2CrossSliderAxis.dot(w2);
 
             // Compute the Lagrange multiplier lambda for the motor
             const decimal maxMotorImpulse = mSliderJointComponents.mMaxMotorForce[i] * mTimeStep;
@@ -447,15 +455,19 @@ void SolveSliderJointSystem::solveVelocityConstraint() {
 
             // Compute the impulse P=J^T * lambda for the motor of body 1
             const Vector3 linearImpulseBody1 = deltaLambdaMotor * sliderAxisWorld;
+            const Vector3 angularImpulseBody1 = deltaLambdaMotor * r1PlusUCrossSliderAxis;
 
             // Apply the impulse to the body 1
             v1 += inverseMassBody1 * mRigidBodyComponents.mLinearLockAxisFactors[componentIndexBody1] * linearImpulseBody1;
+            w1 += mRigidBodyComponents.mAngularLockAxisFactors[componentIndexBody1] * (i1 * angularImpulseBody1);
 
             // Compute the impulse P=J^T * lambda for the motor of body 2
             const Vector3 linearImpulseBody2 = -deltaLambdaMotor * sliderAxisWorld;
+            const Vector3 angularImpulseBody2 = -deltaLambdaMotor * r2CrossSliderAxis;
 
             // Apply the impulse to the body 2
             v2 += inverseMassBody2 * mRigidBodyComponents.mLinearLockAxisFactors[componentIndexBody2] * linearImpulseBody2;
+            w2 += mRigidBodyComponents.mAngularLockAxisFactors[componentIndexBody2] * (i2 * angularImpulseBody2);
         }
 
         // --------------- Rotation Constraints --------------- //
-- 
2.43.0


From 03a748aa8463cca3cc81009740d989f2aa27b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:39 +0000
Subject: [PATCH 58/81] fix: correct each position constraint of a joint with
 the positions the previous constraints have corrected

The limits, rotation and translation constraints of a joint were corrected with
errors and mass matrices computed before any of them moved the bodies. The
correction could therefore diverge instead of converging like Gauss-Seidel.
---
 src/systems/SolveBallAndSocketJointSystem.cpp | 18 +++++--
 src/systems/SolveHingeJointSystem.cpp         | 49 ++++++++++++-------
 src/systems/SolveSliderJointSystem.cpp        | 26 ++++++++--
 3 files changed, 68 insertions(+), 25 deletions(-)

diff --git a/src/systems/SolveBallAndSocketJointSystem.cpp b/src/systems/SolveBallAndSocketJointSystem.cpp
index 4eb6cc4..c5be6ad 100644
--- a/src/systems/SolveBallAndSocketJointSystem.cpp
+++ b/src/systems/SolveBallAndSocketJointSystem.cpp
@@ -333,10 +333,6 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
         const Vector3& r1World = mBallAndSocketJointComponents.mR1World[i];
         const Vector3& r2World = mBallAndSocketJointComponents.mR2World[i];
 
-        // Compute the corresponding skew-symmetric matrices
-        Matrix3x3 skewSymmetricMatrixU1 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(r1World);
-        Matrix3x3 skewSymmetricMatrixU2 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(r2World);
-
         // Get the inverse mass and inverse inertia tensors of the bodies
         const decimal inverseMassBody1 = mRigidBodyComponents.mInverseMasses[componentIndexBody1];
         const decimal inverseMassBody2 = mRigidBodyComponents.mInverseMasses[componentIndexBody2];
@@ -390,6 +386,20 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
 
         // --------------- Joint Constraints --------------- //
 
+        // The correction of the cone limit has moved the bodies
+        RigidBody::computeWorldInertiaTensorInverse(q1.getMatrix(), mRigidBodyComponents.mInverseInertiaTensorsLocal[componentIndexBody1],
+                                                    mBallAndSocketJointComponents.mI1[i]);
+        RigidBody::computeWorldInertiaTensorInverse(q2.getMatrix(), mRigidBodyComponents.mInverseInertiaTensorsLocal[componentIndexBody2],
+                                                    mBallAndSocketJointComponents.mI2[i]);
+        mBallAndSocketJointComponents.mR1World[i] = mRigidBodyComponents.mConstrainedOrientations[componentIndexBody1] *
+                                                    (mBallAndSocketJointComponents.mLocalAnchorPointBody1[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody1]);
+        mBallAndSocketJointComponents.mR2World[i] = mRigidBodyComponents.mConstrainedOrientations[componentIndexBody2] *
+                                                    (mBallAndSocketJointComponents.mLocalAnchorPointBody2[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody2]);
+
+        // Compute the corresponding skew-symmetric matrices
+        Matrix3x3 skewSymmetricMatrixU1 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(r1World);
+        Matrix3x3 skewSymmetricMatrixU2 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(r2World);
+
         // Recompute the inverse mass matrix K=J^TM^-1J of of the 3 translation constraints
         decimal inverseMassBodies = inverseMassBody1 + inverseMassBody2;
         Matrix3x3 massMatrix = Matrix3x3(inverseMassBodies, 0, 0,
diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 0980474..fe48cbb 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -495,25 +495,9 @@ void SolveHingeJointSystem::solvePositionConstraint() {
         RigidBody::computeWorldInertiaTensorInverse(q2.getMatrix(), mRigidBodyComponents.mInverseInertiaTensorsLocal[componentIndexBody2],
                                                     mHingeJointComponents.mI2[i]);
 
-        // Compute the vector from body center to the anchor point in world-space
-        mHingeJointComponents.mR1World[i] = q1 * (mHingeJointComponents.mLocalAnchorPointBody1[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody1]);
-        mHingeJointComponents.mR2World[i] = q2 * (mHingeJointComponents.mLocalAnchorPointBody2[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody2]);
-
-        // Compute the corresponding skew-symmetric matrices
-        Matrix3x3 skewSymmetricMatrixU1 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR1World[i]);
-        Matrix3x3 skewSymmetricMatrixU2 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR2World[i]);
-
-
-        // Compute vectors needed in the Jacobian (those of the velocity constraints are kept
-        // because the impulses are expressed with them)
+        // Compute the hinge axis of body 1 in world-space
         Vector3 a1 = q1 * mHingeJointComponents.mHingeLocalAxisBody1[i];
-        Vector3 a2 = q2 * mHingeJointComponents.mHingeLocalAxisBody2[i];
         a1.normalize();
-        a2.normalize();
-        const Vector3 b2 = a2.getOneUnitOrthogonalVector();
-        const Vector3 c2 = a2.cross(b2);
-        const Vector3 b2CrossA1 = b2.cross(a1);
-        const Vector3 c2CrossA1 = c2.cross(a1);
 
         // Compute the current angle around the hinge axis
         const decimal hingeAngle = computeCurrentHingeAngle(jointEntity, q1, q2);
@@ -595,6 +579,23 @@ void SolveHingeJointSystem::solvePositionConstraint() {
 
         // --------------- Rotation Constraints --------------- //
 
+        // The correction of the limits has moved the bodies
+        RigidBody::computeWorldInertiaTensorInverse(q1.getMatrix(), mRigidBodyComponents.mInverseInertiaTensorsLocal[componentIndexBody1],
+                                                    mHingeJointComponents.mI1[i]);
+        RigidBody::computeWorldInertiaTensorInverse(q2.getMatrix(), mRigidBodyComponents.mInverseInertiaTensorsLocal[componentIndexBody2],
+                                                    mHingeJointComponents.mI2[i]);
+
+        // Compute vectors needed in the Jacobian (those of the velocity constraints are kept
+        // because the impulses are expressed with them)
+        a1 = q1 * mHingeJointComponents.mHingeLocalAxisBody1[i];
+        Vector3 a2 = q2 * mHingeJointComponents.mHingeLocalAxisBody2[i];
+        a1.normalize();
+        a2.normalize();
+        const Vector3 b2 = a2.getOneUnitOrthogonalVector();
+        const Vector3 c2 = a2.cross(b2);
+        const Vector3 b2CrossA1 = b2.cross(a1);
+        const Vector3 c2CrossA1 = c2.cross(a1);
+
         // Compute the inverse mass matrix K=JM^-1J^t for the 2 rotation constraints (2x2 matrix)
         Vector3 I1B2CrossA1 = mHingeJointComponents.mI1[i] * b2CrossA1;
         Vector3 I1C2CrossA1 = mHingeJointComponents.mI1[i] * c2CrossA1;
@@ -646,6 +647,20 @@ void SolveHingeJointSystem::solvePositionConstraint() {
 
         // --------------- Translation Constraints --------------- //
 
+        // The correction of the rotation constraints has moved the bodies
+        RigidBody::computeWorldInertiaTensorInverse(q1.getMatrix(), mRigidBodyComponents.mInverseInertiaTensorsLocal[componentIndexBody1],
+                                                    mHingeJointComponents.mI1[i]);
+        RigidBody::computeWorldInertiaTensorInverse(q2.getMatrix(), mRigidBodyComponents.mInverseInertiaTensorsLocal[componentIndexBody2],
+                                                    mHingeJointComponents.mI2[i]);
+
+        // Compute the vector from body center to the anchor point in world-space
+        mHingeJointComponents.mR1World[i] = q1 * (mHingeJointComponents.mLocalAnchorPointBody1[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody1]);
+        mHingeJointComponents.mR2World[i] = q2 * (mHingeJointComponents.mLocalAnchorPointBody2[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody2]);
+
+        // Compute the corresponding skew-symmetric matrices
+        Matrix3x3 skewSymmetricMatrixU1 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR1World[i]);
+        Matrix3x3 skewSymmetricMatrixU2 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR2World[i]);
+
         // Compute the matrix K=JM^-1J^t (3x3 matrix) for the 3 translation constraints
         const decimal body1InverseMass = mRigidBodyComponents.mInverseMasses[componentIndexBody1];
         const decimal body2InverseMass = mRigidBodyComponents.mInverseMasses[componentIndexBody2];
diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index a03e15d..a067a6d 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -570,14 +570,14 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         Vector3& x2 = mRigidBodyComponents.mConstrainedPositions[componentIndexBody2];
 
         // Compute the vector u (difference between anchor points)
-        const Vector3 u = x2 + r2 - x1 - r1;
+        Vector3 u = x2 + r2 - x1 - r1;
 
         // Compute the two orthogonal vectors to the slider axis in world-space
         // (those of the velocity constraints are kept because the impulses are expressed with them)
         Vector3 sliderAxisWorld = q1 * mSliderJointComponents.mSliderAxisBody1[i];
         sliderAxisWorld.normalize();
-        const Vector3 n1 = sliderAxisWorld.getOneUnitOrthogonalVector();
-        const Vector3 n2 = sliderAxisWorld.cross(n1);
+        Vector3 n1 = sliderAxisWorld.getOneUnitOrthogonalVector();
+        Vector3 n2 = sliderAxisWorld.cross(n1);
 
         // Check if the limit constraints are violated or not
         decimal uDotSliderAxis = u.dot(sliderAxisWorld);
@@ -590,7 +590,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         mSliderJointComponents.mR2CrossN1[i] = r2.cross(n1);
         mSliderJointComponents.mR2CrossN2[i] = r2.cross(n2);
         mSliderJointComponents.mR2CrossSliderAxis[i] = r2.cross(sliderAxisWorld);
-        const Vector3 r1PlusU = r1 + u;
+        Vector3 r1PlusU = r1 + u;
         mSliderJointComponents.mR1PlusUCrossN1[i] = r1PlusU.cross(n1);
         mSliderJointComponents.mR1PlusUCrossN2[i] = r1PlusU.cross(n2);
         mSliderJointComponents.mR1PlusUCrossSliderAxis[i] = r1PlusU.cross(sliderAxisWorld);
@@ -771,6 +771,24 @@ void SolveSliderJointSystem::solvePositionConstraint() {
 
         // --------------- Translation Constraints --------------- //
 
+        // The correction of the limits and of the rotation constraints has moved the bodies
+        RigidBody::computeWorldInertiaTensorInverse(q1.getMatrix(), mRigidBodyComponents.mInverseInertiaTensorsLocal[componentIndexBody1],
+                                                    mSliderJointComponents.mI1[i]);
+        RigidBody::computeWorldInertiaTensorInverse(q2.getMatrix(), mRigidBodyComponents.mInverseInertiaTensorsLocal[componentIndexBody2],
+                                                    mSliderJointComponents.mI2[i]);
+        mSliderJointComponents.mR1[i] = q1 * (mSliderJointComponents.mLocalAnchorPointBody1[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody1]);
+        mSliderJointComponents.mR2[i] = q2 * (mSliderJointComponents.mLocalAnchorPointBody2[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody2]);
+        u = x2 + r2 - x1 - r1;
+        sliderAxisWorld = q1 * mSliderJointComponents.mSliderAxisBody1[i];
+        sliderAxisWorld.normalize();
+        n1 = sliderAxisWorld.getOneUnitOrthogonalVector();
+        n2 = sliderAxisWorld.cross(n1);
+        mSliderJointComponents.mR2CrossN1[i] = r2.cross(n1);
+        mSliderJointComponents.mR2CrossN2[i] = r2.cross(n2);
+        r1PlusU = r1 + u;
+        mSliderJointComponents.mR1PlusUCrossN1[i] = r1PlusU.cross(n1);
+        mSliderJointComponents.mR1PlusUCrossN2[i] = r1PlusU.cross(n2);
+
         const Matrix3x3& i1 = mSliderJointComponents.getI1(jointEntity);
         const Matrix3x3& i2 = mSliderJointComponents.getI2(jointEntity);
 
-- 
2.43.0


From 62f6715f6ceb29c12df0cabfcecf921a111c19ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 59/81] fix: the orientation error of the fixed and slider
 joints does not depend on the sign of the quaternions

---
 src/systems/SolveFixedJointSystem.cpp  | 8 +++++++-
 src/systems/SolveSliderJointSystem.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/systems/SolveFixedJointSystem.cpp b/src/systems/SolveFixedJointSystem.cpp
index 4387f31..6111d5f 100644
--- a/src/systems/SolveFixedJointSystem.cpp
+++ b/src/systems/SolveFixedJointSystem.cpp
@@ -127,7 +127,10 @@ void SolveFixedJointSystem::initBeforeSolve() {
         mFixedJointComponents.mBiasRotation[i].setToZero();
 
         if (mJointComponents.mPositionCorrectionTechniques[jointIndex] == JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS) {
-            const Quaternion qError = orientationBody2 * mFixedJointComponents.mInitOrientationDifferenceInv[i] * orientationBody1.getInverse();
+            Quaternion qError = orientationBody2 * mFixedJointComponents.mInitOrientationDifferenceInv[i] * orientationBody1.getInverse();
+
+            // The quaternions q and -q are the same rotation. The vector part is only the error for the one with w >= 0
+            if (qError.w < decimal(0.0)) qError = qError * decimal(-1.0);
             mFixedJointComponents.mBiasRotation[i] = biasFactor * decimal(2.0) * qError.getVectorV();
         }
 
@@ -413,6 +416,9 @@ void SolveFixedJointSystem::solvePositionConstraint() {
             // qError = error that needs to be reduced to zero
             Quaternion qError = q2 * mFixedJointComponents.mInitOrientationDifferenceInv[i] * q1.getInverse();
 
+            // The quaternions q and -q are the same rotation. The vector part is only the error for the one with w >= 0
+            if (qError.w < decimal(0.0)) qError = qError * decimal(-1.0);
+
             // A quaternion can be seen as:
             //
             // q = [sin(theta / 2) * v, cos(theta/2)]
diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index a067a6d..5086c1b 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -208,7 +208,10 @@ void SolveSliderJointSystem::initBeforeSolve() {
         // Compute the bias "b" of the rotation constraint
         mSliderJointComponents.mBiasRotation[i].setToZero();
         if (mJointComponents.mPositionCorrectionTechniques[jointIndex] == JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS) {
-            const Quaternion qError = orientationBody2 * mSliderJointComponents.mInitOrientationDifferenceInv[i] * orientationBody1.getInverse();
+            Quaternion qError = orientationBody2 * mSliderJointComponents.mInitOrientationDifferenceInv[i] * orientationBody1.getInverse();
+
+            // The quaternions q and -q are the same rotation. The vector part is only the error for the one with w >= 0
+            if (qError.w < decimal(0.0)) qError = qError * decimal(-1.0);
             mSliderJointComponents.mBiasRotation[i] = biasFactor * decimal(2.0) * qError.getVectorV();
         }
 
@@ -734,6 +737,9 @@ void SolveSliderJointSystem::solvePositionConstraint() {
             // qError = error that needs to be reduced to zero
             Quaternion qError = q2 * mSliderJointComponents.mInitOrientationDifferenceInv[i] * q1.getInverse();
 
+            // The quaternions q and -q are the same rotation. The vector part is only the error for the one with w >= 0
+            if (qError.w < decimal(0.0)) qError = qError * decimal(-1.0);
+
             // A quaternion can be seen as:
             //
             // q = [sin(theta / 2) * v, cos(theta/2)]
-- 
2.43.0


From f13dc40cddf01413781a49532bbbe16eb3bcdd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 60/81] fix: keep the map of the edges of the hull up to date
 when QuickHull removes a redundant vertex

---
 .../utils/quickhull/QHHalfEdgeStructure.h           |  3 +++
 src/utils/quickhull/QHHalfEdgeStructure.cpp         | 13 +++++++++++++
 src/utils/quickhull/QuickHull.cpp                   |  4 ++--
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h b/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h
index a7a86b0..2ac7ccf 100644
--- a/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h
+++ b/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h
@@ -321,6 +321,9 @@ class QHHalfEdgeStructure {
         /// Delete the face
         void deleteFace(Face* face);
 
+        /// Change the two vertices of an half-edge
+        void changeEdgeVertices(Edge* edge, Vertex* startVertex, Vertex* endVertex);
+
         /// Remove an half-edge
         void removeHalfEdge(Edge* edge);
 
diff --git a/src/utils/quickhull/QHHalfEdgeStructure.cpp b/src/utils/quickhull/QHHalfEdgeStructure.cpp
index 124f28d..8e026a8 100644
--- a/src/utils/quickhull/QHHalfEdgeStructure.cpp
+++ b/src/utils/quickhull/QHHalfEdgeStructure.cpp
@@ -255,6 +255,19 @@ void QHHalfEdgeStructure::removeFaceFromLinkedList(Face* face) {
     }
 }
 
+// Change the two vertices of an half-edge
+void QHHalfEdgeStructure::changeEdgeVertices(Edge* edge, Vertex* startVertex, Vertex* endVertex) {
+
+    assert(mMapVerticesToEdge.containsKey(EdgeVertices(edge->startVertex, edge->endVertex)));
+    mMapVerticesToEdge.remove(EdgeVertices(edge->startVertex, edge->endVertex));
+
+    edge->startVertex = startVertex;
+    edge->endVertex = endVertex;
+
+    assert(!mMapVerticesToEdge.containsKey(EdgeVertices(startVertex, endVertex)));
+    mMapVerticesToEdge.add(Pair<EdgeVertices, Edge*>(EdgeVertices(startVertex, endVertex), edge));
+}
+
 // Remove an half-edge
 void QHHalfEdgeStructure::removeHalfEdge(Edge* edge) {
 
diff --git a/src/utils/quickhull/QuickHull.cpp b/src/utils/quickhull/QuickHull.cpp
index f45a55f..aef5cd0 100644
--- a/src/utils/quickhull/QuickHull.cpp
+++ b/src/utils/quickhull/QuickHull.cpp
@@ -729,11 +729,11 @@ void QuickHull::fixTopologicalIssueAtEdge(QHHalfEdgeStructure& convexHull, QHHal
         QHHalfEdgeStructure::Vertex* vertexToRemove = inEdge->endVertex;
         QHHalfEdgeStructure::Edge* outEdgeToRemove = inEdge->nextFaceEdge;
 
-        inEdge->twinEdge->startVertex = outEdgeToRemove->endVertex;
+        convexHull.changeEdgeVertices(inEdge->twinEdge, outEdgeToRemove->endVertex, inEdge->twinEdge->endVertex);
         outEdgeToRemove->twinEdge->previousFaceEdge->nextFaceEdge = inEdge->twinEdge;
         inEdge->twinEdge->previousFaceEdge = outEdgeToRemove->twinEdge->previousFaceEdge;
 
-        inEdge->endVertex = outEdgeToRemove->endVertex;
+        convexHull.changeEdgeVertices(inEdge, inEdge->startVertex, outEdgeToRemove->endVertex);
         inEdge->nextFaceEdge = outEdgeToRemove->nextFaceEdge;
         inEdge->nextFaceEdge->previousFaceEdge = inEdge;
 
-- 
2.43.0


From 45cec12509cdf36bad65412ccb06a7eb91f3120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 61/81] fix: refuse an empty array of points with an error
 message instead of dividing by zero in QuickHull

---
 src/utils/quickhull/QuickHull.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/quickhull/QuickHull.cpp b/src/utils/quickhull/QuickHull.cpp
index aef5cd0..dd5547a 100644
--- a/src/utils/quickhull/QuickHull.cpp
+++ b/src/utils/quickhull/QuickHull.cpp
@@ -757,6 +757,8 @@ void QuickHull::fixTopologicalIssueAtEdge(QHHalfEdgeStructure& convexHull, QHHal
 // Remove duplicated vertices in the input array of points
 void QuickHull::removeDuplicatedVertices(Array<Vector3>& points, MemoryAllocator& allocator) {
 
+    if (points.size() == 0) return;
+
     const decimal distanceEpsilon = 0.00001f;
     Array<Vector3> pointsToKeep(allocator, points.size());
 
-- 
2.43.0


From afd89950c7e606ce56fa0120558824334c179dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:21 +0000
Subject: [PATCH 62/81] fix: refuse face lists that do not describe a closed
 polyhedron with an error message instead of building a broken half-edge
 structure

---
 src/collision/ConvexMesh.cpp | 46 +++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/collision/ConvexMesh.cpp b/src/collision/ConvexMesh.cpp
index e301ea6..9441ae6 100644
--- a/src/collision/ConvexMesh.cpp
+++ b/src/collision/ConvexMesh.cpp
@@ -31,6 +31,7 @@
 #include <reactphysics3d/engine/PhysicsCommon.h>
 #include <reactphysics3d/utils/Message.h>
 #include <cstdlib>
+#include <set>
 #include <vector>
 
 using namespace reactphysics3d;
@@ -52,6 +53,13 @@ bool ConvexMesh::init(const PolygonVertexArray& polygonVertexArray, std::vector<
 
     bool isValid = true;
 
+    if (polygonVertexArray.getNbVertices() < 4 || polygonVertexArray.getNbFaces() < 4) {
+
+        errors.push_back(Message("The convex mesh must have at least four vertices and four faces"));
+
+        return false;
+    }
+
     // Reserve memory for the vertices, faces and edges
     mVertices.reserve(polygonVertexArray.getNbVertices());
     mFacesNormals.reserve(polygonVertexArray.getNbFaces());
@@ -64,6 +72,8 @@ bool ConvexMesh::init(const PolygonVertexArray& polygonVertexArray, std::vector<
     // Create the half-edge structure of the mesh
     isValid &= createHalfEdgeStructure(polygonVertexArray, errors);
 
+    if (!isValid) return false;
+
     // Compute the faces normals
     isValid &= computeFacesNormals(errors);
 
@@ -125,6 +135,7 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
     }
 
     uint32 nbEdges = 0;
+    std::multiset<std::pair<uint32, uint32>> directedEdges;
 
     // For each polygon face of the mesh
     const uint32 nbFaces = polygonVertexArray.getNbFaces();
@@ -137,7 +148,24 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
 
         // For each vertex of the face
         for (uint32 v=0; v < face->nbVertices; v++) {
-            faceVertices.add(polygonVertexArray.getVertexIndexInFace(f, v));
+
+            const uint32 vertexIndex = polygonVertexArray.getVertexIndexInFace(f, v);
+            faceVertices.add(vertexIndex);
+
+            // If the index of the vertex is not valid
+            if (vertexIndex >= nbVertices) {
+
+                errors.push_back(Message("The face with index " + std::to_string(f) + " has a vertex with index " +
+                                         std::to_string(vertexIndex) + " but the PolygonVertexArray only has " +
+                                         std::to_string(nbVertices) + " vertices"));
+
+                isValid = false;
+            }
+        }
+
+        // Count the directed edges of the face
+        for (uint32 v=0; v < face->nbVertices; v++) {
+            directedEdges.insert(std::make_pair(faceVertices[v], faceVertices[v == face->nbVertices - 1 ? 0 : v + 1]));
         }
 
         nbEdges += face->nbVertices;
@@ -172,11 +200,23 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
         isValid = false;
     }
 
-    //if (isValid) {
+    // Each edge must be shared by exactly two faces that go along the edge in opposite directions
+    for (auto it = directedEdges.begin(); isValid && it != directedEdges.end(); ++it) {
+
+        if (directedEdges.count(*it) != 1 || directedEdges.count(std::make_pair(it->second, it->first)) != 1) {
+
+            errors.push_back(Message("The edge between the vertices " + std::to_string(it->first) + " and " + std::to_string(it->second) +
+                                     " of the convex mesh is not shared by exactly two faces with the same orientation"));
+
+            isValid = false;
+        }
+    }
+
+    if (isValid) {
 
         // Initialize the half-edge structure
         mHalfEdgeStructure.computeHalfEdges();
-    //}
+    }
 
     return isValid;
 }
-- 
2.43.0


From a0045b380bffd7c7bd5ae596780e332a5d2b424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 63/81] fix: remove an unused first vertex of a triangle mesh
 like the other unused vertices

---
 src/collision/TriangleMesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/TriangleMesh.cpp b/src/collision/TriangleMesh.cpp
index 7c3029d..df98e8e 100644
--- a/src/collision/TriangleMesh.cpp
+++ b/src/collision/TriangleMesh.cpp
@@ -217,7 +217,7 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
 void TriangleMesh::removeUnusedVertices(Array<bool>& areUsedVertices) {
 
     // For each vertex of the user mesh
-    for (uint32 i=mVertices.size() - 1; i > 0; i--) {
+    for (uint32 i=mVertices.size(); i-- > 0;) {
 
         // If the vertex is not used
         if (!areUsedVertices[i]) {
-- 
2.43.0


From 2d44d398ae69dca833c60c4c9899ca5b4192f026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 64/81] fix: refuse a triangle mesh without vertices or with
 all its vertices at the origin instead of asserting

---
 src/collision/TriangleMesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision/TriangleMesh.cpp b/src/collision/TriangleMesh.cpp
index df98e8e..b1f2bd3 100644
--- a/src/collision/TriangleMesh.cpp
+++ b/src/collision/TriangleMesh.cpp
@@ -92,7 +92,7 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
 
     bool isValid = true;
 
-    assert(mEpsilon > 0);
+    assert(mEpsilon >= 0);
 
     const decimal epsilonSquare = mEpsilon * mEpsilon;
 
@@ -135,7 +135,7 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
             const Vector3 v2 = triangleVertexArray.getVertex(vertexIndices[1]);
             const Vector3 v3 = triangleVertexArray.getVertex(vertexIndices[2]);
             const Vector3 faceNormal = (v3 - v1).cross(v2 - v1);
-            const bool isFaceZeroArea = faceNormal.lengthSquare() < epsilonSquare;
+            const bool isFaceZeroArea = faceNormal.lengthSquare() <= epsilonSquare;
             if (isFaceZeroArea) {
 
                 // Add a warning message for the user
-- 
2.43.0


From 26e7ebef08b13b37e6e903408b2b74d7145b909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 65/81] fix: weight the normals of the faces around a vertex
 with the whole angle when it is obtuse

---
 src/collision/TriangleMesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/TriangleMesh.cpp b/src/collision/TriangleMesh.cpp
index b1f2bd3..4869784 100644
--- a/src/collision/TriangleMesh.cpp
+++ b/src/collision/TriangleMesh.cpp
@@ -306,7 +306,7 @@ void TriangleMesh::computeVerticesNormals() {
             assert(lengthATimesLengthB * lengthATimesLengthB >= mEpsilon * mEpsilon);
 
             decimal cosA = dotProduct / lengthATimesLengthB;
-            cosA = std::min(std::max(cosA, decimal(0.0)), decimal(1.0));    // Angle inside a triangle should be in [0, pi]
+            cosA = std::min(std::max(cosA, decimal(-1.0)), decimal(1.0));    // Angle inside a triangle should be in [0, pi]
             const decimal angle = std::acos(cosA);
             assert(angle >= decimal(0.0));
 
-- 
2.43.0


From a64769c00c448f9cdf477e097993ec7fcb67beda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 66/81] fix: give a vertex whose adjacent faces cancel out the
 normal of one of them instead of a zero normal

---
 src/collision/TriangleMesh.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/collision/TriangleMesh.cpp b/src/collision/TriangleMesh.cpp
index 4869784..51046dd 100644
--- a/src/collision/TriangleMesh.cpp
+++ b/src/collision/TriangleMesh.cpp
@@ -321,6 +321,20 @@ void TriangleMesh::computeVerticesNormals() {
 
     assert(mVertices.size() == mVerticesNormals.size());
 
+    // If the weighted normals of the faces around a vertex cancel out (a double-sided surface for instance), use
+    // the normal of one of those faces instead
+    for (uint32 i=0; i < mTriangles.size(); i++) {
+
+        if (mVerticesNormals[mTriangles[i]].lengthSquare() < MACHINE_EPSILON) {
+
+            const uint32 f = i / 3;
+            const Vector3& v1 = mVertices[mTriangles[f * 3]];
+            const Vector3& v2 = mVertices[mTriangles[f * 3 + 1]];
+            const Vector3& v3 = mVertices[mTriangles[f * 3 + 2]];
+            mVerticesNormals[mTriangles[i]] = (v2 - v1).cross(v3 - v1).getUnit();
+        }
+    }
+
     // Normalize the computed vertices normals
     for (uint32 v=0; v < mVertices.size(); v++) {
 
-- 
2.43.0


From 98879000b469d734cf92d8bc7974fb7bcaca1aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 67/81] fix: use the rounding of single precision as the
 tolerance of QuickHull in double precision too, its points are floats

---
 src/utils/quickhull/QuickHull.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/quickhull/QuickHull.cpp b/src/utils/quickhull/QuickHull.cpp
index dd5547a..fe3ca00 100644
--- a/src/utils/quickhull/QuickHull.cpp
+++ b/src/utils/quickhull/QuickHull.cpp
@@ -84,8 +84,9 @@ bool QuickHull::computeConvexHull(const VertexArray& vertexArray, PolygonVertexA
         }
     }
 
-    // Compute the 'epsilon' value for this set of points
-    const decimal epsilon = 3 * (maxAbsX + maxAbsY + maxAbsZ) * MACHINE_EPSILON;
+    // Compute the 'epsilon' value for this set of points. Even when decimals are doubles, the points may come from
+    // an array of floats and the hull is returned as an array of floats (they are only coplanar up to this rounding)
+    const decimal epsilon = 3 * (maxAbsX + maxAbsY + maxAbsZ) * decimal(std::numeric_limits<float>::epsilon());
 
     QHHalfEdgeStructure convexHull(allocator);
 
-- 
2.43.0


From 25589290124fc3f90a059c15c534651dde612bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 68/81] fix: do not assert that the faces of a convex hull are
 larger than 1e-5, those of small or finely sampled hulls are not

---
 src/utils/quickhull/QHHalfEdgeStructure.cpp | 2 +-
 src/utils/quickhull/QuickHull.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/quickhull/QHHalfEdgeStructure.cpp b/src/utils/quickhull/QHHalfEdgeStructure.cpp
index 8e026a8..4db7d8c 100644
--- a/src/utils/quickhull/QHHalfEdgeStructure.cpp
+++ b/src/utils/quickhull/QHHalfEdgeStructure.cpp
@@ -353,7 +353,7 @@ bool QHHalfEdgeStructure::isValid() const {
        isValid &= (face->previousFace == nullptr || face->previousFace == previousFace);
        isValid &= (previousFace == nullptr || previousFace->nextFace == face);
        isValid &= face->isValid();
-       isValid &= face->area > 0.00001;
+       isValid &= face->area > 0;
        nbFaces++;
     };
     isValid &= nbFaces > 0 || mFaces == nullptr;
diff --git a/src/utils/quickhull/QuickHull.cpp b/src/utils/quickhull/QuickHull.cpp
index fe3ca00..f9fb9de 100644
--- a/src/utils/quickhull/QuickHull.cpp
+++ b/src/utils/quickhull/QuickHull.cpp
@@ -149,7 +149,7 @@ void QuickHull::computeFinalPolygonVertexArray(const QHHalfEdgeStructure& convex
     // For each face of the convex hull
     for (const QHHalfEdgeStructure::Face* face = convexHull.getFaces(); face != nullptr; face = face->nextFace) {
 
-        assert(face->area > 0.00001);
+        assert(face->area > 0);
 
         PolygonVertexArray::PolygonFace polygonFace;
         polygonFace.nbVertices = 0;
-- 
2.43.0


From 3a8b02d4ee186ef7a4fc5b05139e67ed608f887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 69/81] fix: apply the twist friction impulse of the previous
 step only once when warm starting the contact solver

---
 src/systems/ContactSolverSystem.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/systems/ContactSolverSystem.cpp b/src/systems/ContactSolverSystem.cpp
index a7ab187..797a984 100644
--- a/src/systems/ContactSolverSystem.cpp
+++ b/src/systems/ContactSolverSystem.cpp
@@ -458,12 +458,6 @@ void ContactSolverSystem::warmStart() {
 
             // Update the velocities of the body 2 by applying the impulse P
             mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody2Index] += mContactConstraints[c].angularLockAxisFactorBody2 * (mContactConstraints[c].inverseInertiaTensorBody2 * angularImpulseBody2);
-
-            // Update the velocities of the body 1 by applying the impulse P
-            mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody1Index] -= mContactConstraints[c].angularLockAxisFactorBody1 * (mContactConstraints[c].inverseInertiaTensorBody1 * angularImpulseBody2);
-
-            // Update the velocities of the body 1 by applying the impulse P
-            mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody2Index] += mContactConstraints[c].angularLockAxisFactorBody2 * (mContactConstraints[c].inverseInertiaTensorBody2 * angularImpulseBody2);
         }
         else {  // If it is a new contact manifold
 
-- 
2.43.0


From d0ce34a53bab96d30956406e54c963405c0f9101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 70/81] fix: do not take the rounding error of a vanishing
 tangential velocity for a friction direction, it might not be tangential

---
 src/systems/ContactSolverSystem.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/systems/ContactSolverSystem.cpp b/src/systems/ContactSolverSystem.cpp
index 797a984..9a2b8d7 100644
--- a/src/systems/ContactSolverSystem.cpp
+++ b/src/systems/ContactSolverSystem.cpp
@@ -792,9 +792,10 @@ void ContactSolverSystem::computeFrictionVectors(const Vector3& deltaVelocity, C
     Vector3 tangentVelocity(deltaVelocity.x - normalVelocity.x, deltaVelocity.y - normalVelocity.y,
                             deltaVelocity.z - normalVelocity.z);
 
-    // If the velocty difference in the tangential plane is not zero
+    // If the velocty difference in the tangential plane is not zero (a length close to the rounding
+    // error of the subtraction above is not significant and its direction might not be tangential)
     const decimal lengthTangentVelocity = tangentVelocity.length();
-    if (lengthTangentVelocity > MACHINE_EPSILON) {
+    if (lengthTangentVelocity > MACHINE_EPSILON * std::max(decimal(1.0), decimal(1000.0) * deltaVelocity.length())) {
 
         // Compute the first friction vector in the direction of the tangent
         // velocity difference
-- 
2.43.0


From 7db83b10ca8b6db9e8ae6929efd74968b26e9f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 71/81] fix: awake the sleeping neighbors of a body that is
 deactivated

---
 src/body/RigidBody.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 0eaae0d..84c3e01 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -1207,7 +1207,13 @@ void RigidBody::setIsActive(bool isActive) {
     if (mWorld.mBodyComponents.getIsActive(mEntity) == isActive) return;
 
     // Note that only an active body can be put to sleep or awaken
-    if (!isActive) setIsSleeping(true);
+    if (!isActive) {
+
+        // Awake all the sleeping neighbor bodies of the current one
+        awakeNeighborDisabledBodies();
+
+        setIsSleeping(true);
+    }
 
     Body::setIsActive(isActive);
 
-- 
2.43.0


From 17fe160c480ae1e85db1bd72abd1748be0299459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 72/81] fix: disable the joints of an inactive body

---
 include/reactphysics3d/constraint/Joint.h | 1 +
 src/body/RigidBody.cpp                    | 7 +++++++
 src/engine/PhysicsWorld.cpp               | 8 ++++++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/reactphysics3d/constraint/Joint.h b/include/reactphysics3d/constraint/Joint.h
index 77e5a74..4c4b9a4 100644
--- a/include/reactphysics3d/constraint/Joint.h
+++ b/include/reactphysics3d/constraint/Joint.h
@@ -155,6 +155,7 @@ class Joint {
         // -------------------- Friendship -------------------- //
 
         friend class PhysicsWorld;
+        friend class RigidBody;
         friend class Island;
         friend class ConstraintSolverSystem;
 };
diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 84c3e01..0255ac1 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -1224,4 +1224,11 @@ void RigidBody::setIsActive(bool isActive) {
         // Make sure the body is enabled (components of static bodies are disabled)
         mWorld.setBodyDisabled(mEntity, mWorld.mRigidBodyComponents.getBodyType(mEntity) == BodyType::STATIC);
     }
+
+    // Awake the bodies of the joints of this body because those joints are enabled/disabled with the body
+    // Note that we need to copy the array because the body components might be moved when a body is awaken
+    const Array<Entity> joints = mWorld.mRigidBodyComponents.getJoints(mEntity);
+    for (uint32 i=0; i < joints.size(); i++) {
+        mWorld.mJointsComponents.getJoint(joints[i])->awakeBodies();
+    }
 }
diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index cd696b8..e0f7d0f 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -379,8 +379,9 @@ void PhysicsWorld::enableDisableJoints() {
         Entity body1 = mJointsComponents.mBody1Entities[jointEntityIndex];
         Entity body2 = mJointsComponents.mBody2Entities[jointEntityIndex];
 
-        // If both bodies of the joint are disabled
-        if (mBodyComponents.getIsEntityDisabled(body1) && mBodyComponents.getIsEntityDisabled(body2)) {
+        // If both bodies of the joint are disabled or if one of them is not active
+        if ((mBodyComponents.getIsEntityDisabled(body1) && mBodyComponents.getIsEntityDisabled(body2)) ||
+            !mBodyComponents.getIsActive(body1) || !mBodyComponents.getIsActive(body2)) {
 
             // Disable the joint
             setJointDisabled(jointsEntites[i], true);
@@ -854,6 +855,9 @@ void PhysicsWorld::createIslands() {
                 const Entity body2Entity = mJointsComponents.mBody2Entities[jointComponentIndex];
                 const Entity otherBodyEntity = body1Entity == bodyToVisitEntity ? body2Entity : body1Entity;
 
+                // A joint with an inactive body does not connect the two bodies
+                if (!mBodyComponents.getIsActive(otherBodyEntity)) continue;
+
                 const uint32 otherBodyIndex = mRigidBodyComponents.getEntityIndex(otherBodyEntity);
 
                 // Check if the other body has already been added to the island
-- 
2.43.0


From 2f577bb31d64d43e63bd7ca5787baccd477cac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 73/81] fix: awake the bodies of a joint that is created

---
 src/engine/PhysicsWorld.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index e0f7d0f..0037628 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -596,6 +596,9 @@ Joint* PhysicsWorld::createJoint(const JointInfo& jointInfo) {
     // Add the joint into the joint array of the bodies involved in the joint
     addJointToBodies(jointInfo.body1->getEntity(), jointInfo.body2->getEntity(), entity);
 
+    // Awake the two bodies of the joint
+    newJoint->awakeBodies();
+
     // Return the pointer to the created joint
     return newJoint;
 }
-- 
2.43.0


From b947dd9ef8946e47cc233de6c69e8e865b16c2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 74/81] fix: an inactive body that becomes static is not asleep
 anymore

---
 src/body/RigidBody.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 0255ac1..0be85d4 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -76,6 +76,9 @@ void RigidBody::setType(BodyType type) {
     // If it is a static body
     if (type == BodyType::STATIC) {
 
+        // A static body is always awake (an inactive body has not been awakened above)
+        mWorld.mRigidBodyComponents.setIsSleeping(mEntity, false);
+
         // Reset the velocity to zero
         mWorld.mRigidBodyComponents.setLinearVelocity(mEntity, Vector3::zero());
         mWorld.mRigidBodyComponents.setAngularVelocity(mEntity, Vector3::zero());
-- 
2.43.0


From 65bfcb7c24befcbca43be058105fa9b13ed47919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 75/81] fix: the time at rest of a body does not include a time
 before sleeping was disabled

---
 src/engine/PhysicsWorld.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 0037628..5a35c77 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -971,6 +971,9 @@ void PhysicsWorld::enableSleeping(bool isSleepingEnabled) {
 
             // Wake up the rigid body
             (*it)->setIsSleeping(false);
+
+            // Reset the sleep time of the body because its velocity is not monitored anymore
+            mRigidBodyComponents.setSleepTime((*it)->getEntity(), decimal(0.0));
         }
     }
 
-- 
2.43.0


From 483933d07bca1b585db2c956ff1a5e981aebe1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 76/81] fix: the fan triangulation of the faces of a convex
 mesh by the debug renderer

---
 src/utils/DebugRenderer.cpp | 1128 +++++++++++++++++------------------
 1 file changed, 564 insertions(+), 564 deletions(-)

diff --git a/src/utils/DebugRenderer.cpp b/src/utils/DebugRenderer.cpp
index cc32900..78a0808 100644
--- a/src/utils/DebugRenderer.cpp
+++ b/src/utils/DebugRenderer.cpp
@@ -1,564 +1,564 @@
-/********************************************************************************
-* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
-* Copyright (c) 2010-2024 Daniel Chappuis                                       *
-*********************************************************************************
-*                                                                               *
-* This software is provided 'as-is', without any express or implied warranty.   *
-* In no event will the authors be held liable for any damages arising from the  *
-* use of this software.                                                         *
-*                                                                               *
-* Permission is granted to anyone to use this software for any purpose,         *
-* including commercial applications, and to alter it and redistribute it        *
-* freely, subject to the following restrictions:                                *
-*                                                                               *
-* 1. The origin of this software must not be misrepresented; you must not claim *
-*    that you wrote the original software. If you use this software in a        *
-*    product, an acknowledgment in the product documentation would be           *
-*    appreciated but is not required.                                           *
-*                                                                               *
-* 2. Altered source versions must be plainly marked as such, and must not be    *
-*    misrepresented as being the original software.                             *
-*                                                                               *
-* 3. This notice may not be removed or altered from any source distribution.    *
-*                                                                               *
-********************************************************************************/
-
-// Libraries
-#include <reactphysics3d/utils/DebugRenderer.h>
-#include <reactphysics3d/memory/MemoryManager.h>
-#include <cassert>
-#include <reactphysics3d/collision/shapes/ConvexMeshShape.h>
-#include <reactphysics3d/collision/shapes/ConcaveMeshShape.h>
-#include <reactphysics3d/collision/shapes/HeightFieldShape.h>
-#include <reactphysics3d/collision/shapes/BoxShape.h>
-#include <reactphysics3d/collision/shapes/SphereShape.h>
-#include <reactphysics3d/collision/shapes/CapsuleShape.h>
-#include <reactphysics3d/collision/Collider.h>
-#include <reactphysics3d/engine/PhysicsWorld.h>
-#include <reactphysics3d/containers/Pair.h>
-
-using namespace reactphysics3d;
-
-// Constructor
-DebugRenderer::DebugRenderer(MemoryAllocator& allocator)
-              :mAllocator(allocator), mLines(allocator), mTriangles(allocator), mDisplayedDebugItems(0), mMapDebugItemWithColor(allocator),
-               mContactPointSphereRadius(DEFAULT_CONTACT_POINT_SPHERE_RADIUS), mContactNormalLength(DEFAULT_CONTACT_NORMAL_LENGTH),
-               mCollisionShapeNormalLength(DEFAULT_COLLISION_SHAPE_NORMAL_LENGTH) {
-
-    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::COLLIDER_AABB, static_cast<uint32>(DebugColor::MAGENTA)));
-    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::COLLIDER_BROADPHASE_AABB, static_cast<uint32>(DebugColor::YELLOW)));
-	mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::COLLISION_SHAPE, static_cast<uint32>(DebugColor::GREEN)));
-    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::CONTACT_POINT, static_cast<uint32>(DebugColor::RED)));
-    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::CONTACT_NORMAL, static_cast<uint32>(DebugColor::WHITE)));
-    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::COLLISION_SHAPE_NORMAL, static_cast<uint32>(DebugColor::BLUE)));
-}
-
-// Destructor
-DebugRenderer::~DebugRenderer() {
-
-}
-
-// Clear all the debugging primitives (points, lines, triangles, ...)
-void DebugRenderer::reset() {
-
-	mLines.clear();
-	mTriangles.clear();
-}
-
-// Draw an AABB
-void DebugRenderer::drawAABB(const AABB& aabb, uint32 color) {
-	
-	const Vector3& min = aabb.getMin();
-	const Vector3& max = aabb.getMax();
-
-	// Bottom edges
-	mLines.add(DebugLine(Vector3(min.x, min.y, max.z), Vector3(max.x, min.y, max.z), color));
-	mLines.add(DebugLine(Vector3(max.x, min.y, max.z),  Vector3(max.x, min.y, min.z), color));
-	mLines.add(DebugLine(Vector3(max.x, min.y, min.z), Vector3(min.x, min.y, min.z), color));
-	mLines.add(DebugLine(Vector3(min.x, min.y, min.z), Vector3(min.x, min.y, max.z), color));
-
-	// Top edges
-	mLines.add(DebugLine(Vector3(min.x, max.y, max.z), Vector3(max.x, max.y, max.z), color));
-	mLines.add(DebugLine(Vector3(max.x, max.y, max.z), Vector3(max.x, max.y, min.z), color));
-	mLines.add(DebugLine(Vector3(max.x, max.y, min.z), Vector3(min.x, max.y, min.z), color));
-	mLines.add(DebugLine(Vector3(min.x, max.y, min.z), Vector3(min.x, max.y, max.z), color));
-
-	// Side edges
-	mLines.add(DebugLine(Vector3(min.x, min.y, max.z), Vector3(min.x, max.y, max.z), color));
-	mLines.add(DebugLine(Vector3(max.x, min.y, max.z), Vector3(max.x, max.y, max.z), color));
-	mLines.add(DebugLine(Vector3(max.x, min.y, min.z), Vector3(max.x, max.y, min.z), color));
-	mLines.add(DebugLine(Vector3(min.x, min.y, min.z), Vector3(min.x, max.y, min.z), color));
-}
-
-// Draw a box
-void DebugRenderer::drawBox(const Transform& transform, const BoxShape* boxShape, uint32 colorShape, uint32 colorShapeNormals) {
-
-    const bool drawShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
-    const bool drawNormal = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
-
-    Vector3 halfExtents = boxShape->getHalfExtents();
-	Vector3 vertices[8];
-
-	// Vertices
-	vertices[0] = transform * Vector3(-halfExtents.x, -halfExtents.y, halfExtents.z);
-	vertices[1] = transform * Vector3(halfExtents.x, -halfExtents.y, halfExtents.z);
-	vertices[2] = transform * Vector3(halfExtents.x, -halfExtents.y, -halfExtents.z);
-	vertices[3] = transform * Vector3(-halfExtents.x, -halfExtents.y, -halfExtents.z);
-	vertices[4] = transform * Vector3(-halfExtents.x, halfExtents.y, halfExtents.z);
-	vertices[5] = transform * Vector3(halfExtents.x, halfExtents.y, halfExtents.z);
-	vertices[6] = transform * Vector3(halfExtents.x, halfExtents.y, -halfExtents.z);
-	vertices[7] = transform * Vector3(-halfExtents.x, halfExtents.y, -halfExtents.z);
-
-    if (drawShape) {
-
-        // Triangle faces
-        mTriangles.add(DebugTriangle(vertices[0], vertices[1], vertices[5], colorShape));
-        mTriangles.add(DebugTriangle(vertices[0], vertices[5], vertices[4], colorShape));
-        mTriangles.add(DebugTriangle(vertices[1], vertices[2], vertices[6], colorShape));
-        mTriangles.add(DebugTriangle(vertices[1], vertices[6], vertices[5], colorShape));
-        mTriangles.add(DebugTriangle(vertices[2], vertices[3], vertices[6], colorShape));
-        mTriangles.add(DebugTriangle(vertices[3], vertices[7], vertices[6], colorShape));
-        mTriangles.add(DebugTriangle(vertices[0], vertices[7], vertices[3], colorShape));
-        mTriangles.add(DebugTriangle(vertices[0], vertices[4], vertices[7], colorShape));
-        mTriangles.add(DebugTriangle(vertices[0], vertices[2], vertices[1], colorShape));
-        mTriangles.add(DebugTriangle(vertices[0], vertices[3], vertices[2], colorShape));
-        mTriangles.add(DebugTriangle(vertices[5], vertices[6], vertices[4], colorShape));
-        mTriangles.add(DebugTriangle(vertices[4], vertices[6], vertices[7], colorShape));
-    }
-
-    if (drawNormal) {
-
-        // Face normals
-        for (int f=0; f < 6; f++) {
-
-            const HalfEdgeStructure::Face& face = boxShape->getFace(f);
-            const Vector3 facePoint = 0.25 * (boxShape->getVertexPosition(face.faceVertices[0]) + boxShape->getVertexPosition(face.faceVertices[1]) +
-                         boxShape->getVertexPosition(face.faceVertices[2]) + boxShape->getVertexPosition(face.faceVertices[3]));
-            const Vector3 normalPoint = facePoint + mCollisionShapeNormalLength * boxShape->getFaceNormal(f);
-
-            mLines.add(DebugLine(transform * facePoint, transform * normalPoint, colorShapeNormals));
-        }
-    }
-
-}
-
-/// Draw a sphere
-void DebugRenderer::drawSphere(const Vector3& position, decimal radius, uint32 color) {
-
-    Vector3 vertices[(NB_SECTORS_SPHERE + 1) * (NB_STACKS_SPHERE + 1) + (NB_SECTORS_SPHERE + 1)];
-	
-	// Vertices
-    const decimal sectorStep = 2 * PI_RP3D / NB_SECTORS_SPHERE;
-    const decimal stackStep = PI_RP3D / NB_STACKS_SPHERE;
-	
-    for (uint32 i = 0; i <= NB_STACKS_SPHERE; i++) {
-
-        const decimal stackAngle = PI_RP3D / 2 - i * stackStep;
-		const decimal radiusCosStackAngle = radius * std::cos(stackAngle);
-		const decimal z = radius * std::sin(stackAngle);
-
-        for (uint32 j = 0; j <= NB_SECTORS_SPHERE; j++) {
-		
-			const decimal sectorAngle = j * sectorStep;
-			const decimal x = radiusCosStackAngle * std::cos(sectorAngle);
-			const decimal y = radiusCosStackAngle * std::sin(sectorAngle);
-
-            vertices[i * (NB_SECTORS_SPHERE + 1) + j] = position + Vector3(x, y, z);
-		}
-	}
-
-	// Faces
-    for (uint32 i = 0; i < NB_STACKS_SPHERE; i++) {
-
-        uint32 a1 = i * (NB_SECTORS_SPHERE + 1);
-        uint32 a2 = a1 + NB_SECTORS_SPHERE + 1;
-
-        for (uint32 j = 0; j < NB_SECTORS_SPHERE; j++, a1++, a2++) {
-		
-			// 2 triangles per sector except for the first and last stacks
-
-			if (i != 0) {
-			
-				mTriangles.add(DebugTriangle(vertices[a1], vertices[a2], vertices[a1 + 1], color));
-			}
-
-			if (i != (NB_STACKS_SPHERE - 1)) {
-				
-				mTriangles.add(DebugTriangle(vertices[a1 + 1], vertices[a2], vertices[a2 + 1], color));
-			}
-		}
-	}
-}
-
-// Draw a capsule
-void DebugRenderer::drawCapsule(const Transform& transform, decimal radius, decimal height, uint32 color) {
-
-    Vector3 vertices[(NB_SECTORS_SPHERE + 1) * (NB_STACKS_SPHERE + 1) + (NB_SECTORS_SPHERE + 1)];
-
-    const decimal halfHeight = decimal(0.5) * height;
-
-	// Use an even number of stacks
-    const uint32 nbStacks = NB_STACKS_SPHERE % 2 == 0 ? NB_STACKS_SPHERE : NB_STACKS_SPHERE - 1;
-    const uint32 nbHalfStacks = nbStacks / 2;
-	
-	// Vertices
-    const decimal sectorStep = 2 * PI_RP3D / NB_SECTORS_SPHERE;
-    const decimal stackStep = PI_RP3D / nbStacks;
-	
-    uint32 vertexIndex = 0;
-	
-	// Top cap sphere vertices
-    for (uint32 i = 0; i <= nbHalfStacks; i++) {
-
-        const decimal stackAngle = PI_RP3D / 2 - i * stackStep;
-		const decimal radiusCosStackAngle = radius * std::cos(stackAngle);
-        const decimal y = radius * std::sin(stackAngle);
-
-        for (uint32 j = 0; j <= NB_SECTORS_SPHERE; j++) {
-		
-			const decimal sectorAngle = j * sectorStep;
-            const decimal x = radiusCosStackAngle * std::sin(sectorAngle);
-            const decimal z = radiusCosStackAngle * std::cos(sectorAngle);
-
-            assert(vertexIndex < (NB_SECTORS_SPHERE + 1) * (nbStacks + 1) + (NB_SECTORS_SPHERE + 1));
-			vertices[vertexIndex] = transform * Vector3(x, y + halfHeight, z);
-
-			vertexIndex++;
-		}
-	}
-
-	// Bottom cap sphere vertices
-    for (uint32 i = 0; i <= nbHalfStacks; i++) {
-
-        const decimal stackAngle = PI_RP3D / 2 - (nbHalfStacks + i) * stackStep;
-		const decimal radiusCosStackAngle = radius * std::cos(stackAngle);
-        const decimal y = radius * std::sin(stackAngle);
-
-        for (uint32 j = 0; j <= NB_SECTORS_SPHERE; j++) {
-		
-			const decimal sectorAngle = j * sectorStep;
-            const decimal x = radiusCosStackAngle * std::sin(sectorAngle);
-            const decimal z = radiusCosStackAngle * std::cos(sectorAngle);
-
-            assert(vertexIndex < (NB_SECTORS_SPHERE + 1) * (nbStacks + 1) + (NB_SECTORS_SPHERE + 1));
-            vertices[vertexIndex] = transform * Vector3(x, y - halfHeight, z);
-
-			vertexIndex++;
-		}
-	}
-
-	// Faces of the top cap sphere
-    for (uint32 i = 0; i < nbHalfStacks; i++) {
-
-        uint32 a1 = i * (NB_SECTORS_SPHERE + 1);
-        uint32 a2 = a1 + NB_SECTORS_SPHERE + 1;
-
-        for (uint32 j = 0; j < NB_SECTORS_SPHERE; j++, a1++, a2++) {
-		
-			// 2 triangles per sector except for the first stack
-
-            if (i != 0) {
-
-                mTriangles.add(DebugTriangle(vertices[a1], vertices[a2], vertices[a1 + 1], color));
-            }
-
-            mTriangles.add(DebugTriangle(vertices[a1 + 1], vertices[a2], vertices[a2 + 1], color));
-        }
-	}
-
-	// Faces of the bottom cap sphere
-    for (uint32 i = 0; i < nbHalfStacks; i++) {
-
-        uint32 a1 = (nbHalfStacks + 1) * (NB_SECTORS_SPHERE + 1) + i * (NB_SECTORS_SPHERE + 1);
-        uint32 a2 = a1 + NB_SECTORS_SPHERE + 1;
-
-        for (uint32 j = 0; j < NB_SECTORS_SPHERE; j++, a1++, a2++) {
-		
-			// 2 triangles per sector except for the last stack
-
-            mTriangles.add(DebugTriangle(vertices[a1], vertices[a2], vertices[a1 + 1], color));
-
-            if (i != (nbHalfStacks - 1)) {
-
-                mTriangles.add(DebugTriangle(vertices[a1 + 1], vertices[a2], vertices[a2 + 1], color));
-            }
-        }
-	}
-
-	// Faces of the cylinder between the two spheres
-    uint32 a1 = nbHalfStacks * (NB_SECTORS_SPHERE + 1);
-    uint32 a2 = a1 + NB_SECTORS_SPHERE + 1;
-    for (uint32 i = 0; i < NB_SECTORS_SPHERE; i++, a1++, a2++) {
-
-		mTriangles.add(DebugTriangle(vertices[a1 + 1], vertices[a2], vertices[a2 + 1], color));
-		mTriangles.add(DebugTriangle(vertices[a1], vertices[a2], vertices[a1 + 1], color));
-	}
-}
-
-// Draw a convex mesh
-void DebugRenderer::drawConvexMesh(const Transform& transform, const ConvexMeshShape* convexMesh,
-                                   uint32 colorShape, uint32 colorShapeNormals) {
-
-    const bool drawShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
-    const bool drawNormal = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
-
-    // For each face of the convex mesh
-	for (uint32 f = 0; f < convexMesh->getNbFaces(); f++) {
-
-		const HalfEdgeStructure::Face& face = convexMesh->getFace(f);
-		assert(face.faceVertices.size() >= 3);
-
-        Vector3 centroid;
-
-		// Perform a fan triangulation of the convex polygon face
-        const uint32 nbFaceVertices = static_cast<uint32>(face.faceVertices.size());
-        for (uint32 v = 2; v < nbFaceVertices; v++) {
-
-            uint32 v1Index = face.faceVertices[v - 2];
-            uint32 v2Index = face.faceVertices[v - 1];
-            uint32 v3Index = face.faceVertices[v];
-
-            Vector3 v1 = convexMesh->getVertexPosition(v1Index);
-            Vector3 v2 = convexMesh->getVertexPosition(v2Index);
-            Vector3 v3 = convexMesh->getVertexPosition(v3Index);
-
-            v1 = transform * v1;
-            v2 = transform * v2;
-            v3 = transform * v3;
-
-            if (v == 2) {
-                centroid += v1 + v2;
-            }
-
-            centroid += v3;
-
-            if (drawShape) {
-                mTriangles.add(DebugTriangle(v1, v2, v3, colorShape));
-            }
-		}
-
-        if (drawNormal) {
-
-            centroid /= nbFaceVertices;
-            const Vector3 normalPoint = centroid + transform.getOrientation() * convexMesh->getFaceNormal(f) * mCollisionShapeNormalLength;
-            mLines.add(DebugLine(centroid, normalPoint, colorShapeNormals));
-        }
-    }
-}
-
-// Draw a concave mesh shape
-void DebugRenderer::drawConcaveMeshShape(const Transform& transform, const ConcaveMeshShape* concaveMeshShape,
-                                         uint32 colorShape, uint32 colorShapeNormals) {
-
-    const bool drawShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
-    const bool drawNormal = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
-
-    if (drawShape) {
-
-        // For each triangle of the mesh
-        for (uint32 t = 0; t < concaveMeshShape->getNbTriangles(); t++) {
-
-            Vector3 v1, v2, v3;
-            concaveMeshShape->getTriangleVertices(t, v1, v2, v3);
-
-            v1 = transform * v1;
-            v2 = transform * v2;
-            v3 = transform * v3;
-
-            mTriangles.add(DebugTriangle(v1, v2, v3, colorShape));
-        }
-    }
-
-    if (drawNormal) {
-
-        // For each vertex of the mesh
-        for (uint32 v = 0; v < concaveMeshShape->getNbVertices(); v++) {
-
-            const Vector3& vertex = transform * concaveMeshShape->getVertex(v);
-            const Vector3 normalPoint = vertex + transform.getOrientation() * concaveMeshShape->getVertexNormal(v) * mCollisionShapeNormalLength;
-            mLines.add(DebugLine(vertex, normalPoint, colorShapeNormals));
-        }
-    }
-}
-
-// Draw a height field shape
-void DebugRenderer::drawHeightFieldShape(const Transform& transform, const HeightFieldShape* heightFieldShape,
-                                         uint32 colorShape, uint32 colorShapeNormals) {
-
-    const bool drawShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
-    const bool drawNormal = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
-
-    // For each sub-grid points (except the last ones one each dimension)
-    for (uint32 i = 0; i < heightFieldShape->getHeightField()->getNbColumns() - 1; i++) {
-        for (uint32 j = 0; j < heightFieldShape->getHeightField()->getNbRows() - 1; j++) {
-
-            // Compute the four point of the current quad
-            Vector3 p1 = heightFieldShape->getVertexAt(i, j);
-            Vector3 p2 = heightFieldShape->getVertexAt(i, j + 1);
-            Vector3 p3 = heightFieldShape->getVertexAt(i + 1, j);
-            Vector3 p4 = heightFieldShape->getVertexAt(i + 1, j + 1);
-
-            p1 = transform * p1;
-            p2 = transform * p2;
-            p3 = transform * p3;
-            p4 = transform * p4;
-
-            if (drawShape) {
-
-                mTriangles.add(DebugTriangle(p1, p2, p3, colorShape));
-                mTriangles.add(DebugTriangle(p3, p2, p4, colorShape));
-            }
-
-            if (drawNormal) {
-
-               // Compute the triangle normal
-               Vector3 triangle1Normal = (p2 - p1).cross(p3 - p1).getUnit();
-
-                const Vector3 normalPoint1 = p1 + triangle1Normal * mCollisionShapeNormalLength;
-                const Vector3 normalPoint2 = p2 + triangle1Normal * mCollisionShapeNormalLength;
-                const Vector3 normalPoint3 = p3 + triangle1Normal * mCollisionShapeNormalLength;
-                const Vector3 normalPoint4 = p4 + triangle1Normal * mCollisionShapeNormalLength;
-                mLines.add(DebugLine(p1, normalPoint1, colorShapeNormals));
-                mLines.add(DebugLine(p2, normalPoint2, colorShapeNormals));
-                mLines.add(DebugLine(p3, normalPoint3, colorShapeNormals));
-                mLines.add(DebugLine(p4, normalPoint4, colorShapeNormals));
-            }
-       }
-   }
-}
-
-// Draw the collision shape of a collider
-void DebugRenderer::drawCollisionShapeOfCollider(const Collider* collider) {
-	
-    uint32 colorShape = mMapDebugItemWithColor[DebugItem::COLLISION_SHAPE];
-    uint32 colorShapeNormals = mMapDebugItemWithColor[DebugItem::COLLISION_SHAPE_NORMAL];
-
-    switch (collider->getCollisionShape()->getName()) {
-		
-        case CollisionShapeName::BOX:
-        {
-            const BoxShape* boxShape = static_cast<const BoxShape*>(collider->getCollisionShape());
-            drawBox(collider->getLocalToWorldTransform(), boxShape, colorShape, colorShapeNormals);
-            break;
-        }
-        case CollisionShapeName::SPHERE:
-        {
-            const SphereShape* sphereShape = static_cast<const SphereShape*>(collider->getCollisionShape());
-            drawSphere(collider->getLocalToWorldTransform().getPosition(), sphereShape->getRadius(), colorShape);
-            break;
-        }
-        case CollisionShapeName::CAPSULE:
-        {
-            const CapsuleShape* capsuleShape = static_cast<const CapsuleShape*>(collider->getCollisionShape());
-            drawCapsule(collider->getLocalToWorldTransform(), capsuleShape->getRadius(), capsuleShape->getHeight(), colorShape);
-            break;
-        }
-        case CollisionShapeName::CONVEX_MESH:
-        {
-            const ConvexMeshShape* convexMeshShape = static_cast<const ConvexMeshShape*>(collider->getCollisionShape());
-            drawConvexMesh(collider->getLocalToWorldTransform(), convexMeshShape, colorShape, colorShapeNormals);
-            break;
-        }
-        case CollisionShapeName::TRIANGLE_MESH:
-        {
-            const ConcaveMeshShape* concaveMeshShape = static_cast<const ConcaveMeshShape*>(collider->getCollisionShape());
-            drawConcaveMeshShape(collider->getLocalToWorldTransform(), concaveMeshShape, colorShape, colorShapeNormals);
-            break;
-        }
-        case CollisionShapeName::HEIGHTFIELD:
-        {
-            const HeightFieldShape* heighFieldShape = static_cast<const HeightFieldShape*>(collider->getCollisionShape());
-            drawHeightFieldShape(collider->getLocalToWorldTransform(), heighFieldShape, colorShape, colorShapeNormals);
-            break;
-        }
-        default:
-        {
-            assert(false);
-        }
-    }
-}
-
-// Generate the rendering primitives (triangles, lines, ...) of a physics world
-void DebugRenderer::computeDebugRenderingPrimitives(const PhysicsWorld& world) {
-
-	const bool drawColliderAABB = getIsDebugItemDisplayed(DebugItem::COLLIDER_AABB);
-	const bool drawColliderBroadphaseAABB = getIsDebugItemDisplayed(DebugItem::COLLIDER_BROADPHASE_AABB);
-	const bool drawCollisionShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
-    const bool drawCollisionShapeNormals = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
-
-    const uint32 nbRigidBodies = world.getNbRigidBodies();
-
-    // For each body of the world
-    for (uint32 b = 0; b < nbRigidBodies; b++) {
-
-		// Get a body
-        const Body* body = world.getRigidBody(b);
-
-        if (body->isActive() && body->isDebugEnabled()) {
-
-            // For each collider of the body
-            for (uint32 c = 0; c < body->getNbColliders(); c++) {
-
-                // Get a collider
-                const Collider* collider = body->getCollider(c);
-
-                // If we need to draw the collider AABB
-                if (drawColliderAABB) {
-
-                    drawAABB(collider->getWorldAABB(), mMapDebugItemWithColor[DebugItem::COLLIDER_AABB]);
-                }
-
-                // If we need to draw the collider broad-phase AABB
-                if (drawColliderBroadphaseAABB) {
-
-                    if (collider->getBroadPhaseId() != -1) {
-                        drawAABB(world.mCollisionDetection.mBroadPhaseSystem.getFatAABB(collider->getBroadPhaseId()), mMapDebugItemWithColor[DebugItem::COLLIDER_BROADPHASE_AABB]);
-                    }
-                }
-
-                // If we need to draw the collision shape
-                if (drawCollisionShape || drawCollisionShapeNormals) {
-
-                    drawCollisionShapeOfCollider(collider);
-                }
-            }
-        }
-    }
-}
-
-// Called when some contacts occur
-void DebugRenderer::onContact(const CollisionCallback::CallbackData& callbackData) {
-
-	// If we need to draw contact points
-    if (getIsDebugItemDisplayed(DebugItem::CONTACT_POINT) || getIsDebugItemDisplayed(DebugItem::CONTACT_NORMAL)) {
-
-		// For each contact pair
-        for (uint32 p = 0; p < callbackData.getNbContactPairs(); p++) {
-
-			CollisionCallback::ContactPair contactPair = callbackData.getContactPair(p);
-
-            if (contactPair.getEventType() != CollisionCallback::ContactPair::EventType::ContactExit) {
-
-                // For each contact point of the contact pair
-                for (uint32 c = 0; c < contactPair.getNbContactPoints(); c++) {
-
-                    CollisionCallback::ContactPoint contactPoint = contactPair.getContactPoint(c);
-
-                    Vector3 point = contactPair.getCollider1()->getLocalToWorldTransform() * contactPoint.getLocalPointOnCollider1();
-
-                    if (getIsDebugItemDisplayed(DebugItem::CONTACT_POINT)) {
-
-                        // Contact point
-                        drawSphere(point, mContactPointSphereRadius, mMapDebugItemWithColor[DebugItem::CONTACT_POINT]);
-                    }
-
-                    if (getIsDebugItemDisplayed(DebugItem::CONTACT_NORMAL)) {
-
-                        // Contact normal
-                        mLines.add(DebugLine(point,  point + contactPoint.getWorldNormal() * mContactNormalLength, mMapDebugItemWithColor[DebugItem::CONTACT_NORMAL]));
-                    }
-                }
-            }
-		}
-	}
-}
+/********************************************************************************
+* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
+* Copyright (c) 2010-2024 Daniel Chappuis                                       *
+*********************************************************************************
+*                                                                               *
+* This software is provided 'as-is', without any express or implied warranty.   *
+* In no event will the authors be held liable for any damages arising from the  *
+* use of this software.                                                         *
+*                                                                               *
+* Permission is granted to anyone to use this software for any purpose,         *
+* including commercial applications, and to alter it and redistribute it        *
+* freely, subject to the following restrictions:                                *
+*                                                                               *
+* 1. The origin of this software must not be misrepresented; you must not claim *
+*    that you wrote the original software. If you use this software in a        *
+*    product, an acknowledgment in the product documentation would be           *
+*    appreciated but is not required.                                           *
+*                                                                               *
+* 2. Altered source versions must be plainly marked as such, and must not be    *
+*    misrepresented as being the original software.                             *
+*                                                                               *
+* 3. This notice may not be removed or altered from any source distribution.    *
+*                                                                               *
+********************************************************************************/
+
+// Libraries
+#include <reactphysics3d/utils/DebugRenderer.h>
+#include <reactphysics3d/memory/MemoryManager.h>
+#include <cassert>
+#include <reactphysics3d/collision/shapes/ConvexMeshShape.h>
+#include <reactphysics3d/collision/shapes/ConcaveMeshShape.h>
+#include <reactphysics3d/collision/shapes/HeightFieldShape.h>
+#include <reactphysics3d/collision/shapes/BoxShape.h>
+#include <reactphysics3d/collision/shapes/SphereShape.h>
+#include <reactphysics3d/collision/shapes/CapsuleShape.h>
+#include <reactphysics3d/collision/Collider.h>
+#include <reactphysics3d/engine/PhysicsWorld.h>
+#include <reactphysics3d/containers/Pair.h>
+
+using namespace reactphysics3d;
+
+// Constructor
+DebugRenderer::DebugRenderer(MemoryAllocator& allocator)
+              :mAllocator(allocator), mLines(allocator), mTriangles(allocator), mDisplayedDebugItems(0), mMapDebugItemWithColor(allocator),
+               mContactPointSphereRadius(DEFAULT_CONTACT_POINT_SPHERE_RADIUS), mContactNormalLength(DEFAULT_CONTACT_NORMAL_LENGTH),
+               mCollisionShapeNormalLength(DEFAULT_COLLISION_SHAPE_NORMAL_LENGTH) {
+
+    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::COLLIDER_AABB, static_cast<uint32>(DebugColor::MAGENTA)));
+    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::COLLIDER_BROADPHASE_AABB, static_cast<uint32>(DebugColor::YELLOW)));
+	mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::COLLISION_SHAPE, static_cast<uint32>(DebugColor::GREEN)));
+    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::CONTACT_POINT, static_cast<uint32>(DebugColor::RED)));
+    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::CONTACT_NORMAL, static_cast<uint32>(DebugColor::WHITE)));
+    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::COLLISION_SHAPE_NORMAL, static_cast<uint32>(DebugColor::BLUE)));
+}
+
+// Destructor
+DebugRenderer::~DebugRenderer() {
+
+}
+
+// Clear all the debugging primitives (points, lines, triangles, ...)
+void DebugRenderer::reset() {
+
+	mLines.clear();
+	mTriangles.clear();
+}
+
+// Draw an AABB
+void DebugRenderer::drawAABB(const AABB& aabb, uint32 color) {
+	
+	const Vector3& min = aabb.getMin();
+	const Vector3& max = aabb.getMax();
+
+	// Bottom edges
+	mLines.add(DebugLine(Vector3(min.x, min.y, max.z), Vector3(max.x, min.y, max.z), color));
+	mLines.add(DebugLine(Vector3(max.x, min.y, max.z),  Vector3(max.x, min.y, min.z), color));
+	mLines.add(DebugLine(Vector3(max.x, min.y, min.z), Vector3(min.x, min.y, min.z), color));
+	mLines.add(DebugLine(Vector3(min.x, min.y, min.z), Vector3(min.x, min.y, max.z), color));
+
+	// Top edges
+	mLines.add(DebugLine(Vector3(min.x, max.y, max.z), Vector3(max.x, max.y, max.z), color));
+	mLines.add(DebugLine(Vector3(max.x, max.y, max.z), Vector3(max.x, max.y, min.z), color));
+	mLines.add(DebugLine(Vector3(max.x, max.y, min.z), Vector3(min.x, max.y, min.z), color));
+	mLines.add(DebugLine(Vector3(min.x, max.y, min.z), Vector3(min.x, max.y, max.z), color));
+
+	// Side edges
+	mLines.add(DebugLine(Vector3(min.x, min.y, max.z), Vector3(min.x, max.y, max.z), color));
+	mLines.add(DebugLine(Vector3(max.x, min.y, max.z), Vector3(max.x, max.y, max.z), color));
+	mLines.add(DebugLine(Vector3(max.x, min.y, min.z), Vector3(max.x, max.y, min.z), color));
+	mLines.add(DebugLine(Vector3(min.x, min.y, min.z), Vector3(min.x, max.y, min.z), color));
+}
+
+// Draw a box
+void DebugRenderer::drawBox(const Transform& transform, const BoxShape* boxShape, uint32 colorShape, uint32 colorShapeNormals) {
+
+    const bool drawShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
+    const bool drawNormal = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
+
+    Vector3 halfExtents = boxShape->getHalfExtents();
+	Vector3 vertices[8];
+
+	// Vertices
+	vertices[0] = transform * Vector3(-halfExtents.x, -halfExtents.y, halfExtents.z);
+	vertices[1] = transform * Vector3(halfExtents.x, -halfExtents.y, halfExtents.z);
+	vertices[2] = transform * Vector3(halfExtents.x, -halfExtents.y, -halfExtents.z);
+	vertices[3] = transform * Vector3(-halfExtents.x, -halfExtents.y, -halfExtents.z);
+	vertices[4] = transform * Vector3(-halfExtents.x, halfExtents.y, halfExtents.z);
+	vertices[5] = transform * Vector3(halfExtents.x, halfExtents.y, halfExtents.z);
+	vertices[6] = transform * Vector3(halfExtents.x, halfExtents.y, -halfExtents.z);
+	vertices[7] = transform * Vector3(-halfExtents.x, halfExtents.y, -halfExtents.z);
+
+    if (drawShape) {
+
+        // Triangle faces
+        mTriangles.add(DebugTriangle(vertices[0], vertices[1], vertices[5], colorShape));
+        mTriangles.add(DebugTriangle(vertices[0], vertices[5], vertices[4], colorShape));
+        mTriangles.add(DebugTriangle(vertices[1], vertices[2], vertices[6], colorShape));
+        mTriangles.add(DebugTriangle(vertices[1], vertices[6], vertices[5], colorShape));
+        mTriangles.add(DebugTriangle(vertices[2], vertices[3], vertices[6], colorShape));
+        mTriangles.add(DebugTriangle(vertices[3], vertices[7], vertices[6], colorShape));
+        mTriangles.add(DebugTriangle(vertices[0], vertices[7], vertices[3], colorShape));
+        mTriangles.add(DebugTriangle(vertices[0], vertices[4], vertices[7], colorShape));
+        mTriangles.add(DebugTriangle(vertices[0], vertices[2], vertices[1], colorShape));
+        mTriangles.add(DebugTriangle(vertices[0], vertices[3], vertices[2], colorShape));
+        mTriangles.add(DebugTriangle(vertices[5], vertices[6], vertices[4], colorShape));
+        mTriangles.add(DebugTriangle(vertices[4], vertices[6], vertices[7], colorShape));
+    }
+
+    if (drawNormal) {
+
+        // Face normals
+        for (int f=0; f < 6; f++) {
+
+            const HalfEdgeStructure::Face& face = boxShape->getFace(f);
+            const Vector3 facePoint = 0.25 * (boxShape->getVertexPosition(face.faceVertices[0]) + boxShape->getVertexPosition(face.faceVertices[1]) +
+                         boxShape->getVertexPosition(face.faceVertices[2]) + boxShape->getVertexPosition(face.faceVertices[3]));
+            const Vector3 normalPoint = facePoint + mCollisionShapeNormalLength * boxShape->getFaceNormal(f);
+
+            mLines.add(DebugLine(transform * facePoint, transform * normalPoint, colorShapeNormals));
+        }
+    }
+
+}
+
+/// Draw a sphere
+void DebugRenderer::drawSphere(const Vector3& position, decimal radius, uint32 color) {
+
+    Vector3 vertices[(NB_SECTORS_SPHERE + 1) * (NB_STACKS_SPHERE + 1) + (NB_SECTORS_SPHERE + 1)];
+	
+	// Vertices
+    const decimal sectorStep = 2 * PI_RP3D / NB_SECTORS_SPHERE;
+    const decimal stackStep = PI_RP3D / NB_STACKS_SPHERE;
+	
+    for (uint32 i = 0; i <= NB_STACKS_SPHERE; i++) {
+
+        const decimal stackAngle = PI_RP3D / 2 - i * stackStep;
+		const decimal radiusCosStackAngle = radius * std::cos(stackAngle);
+		const decimal z = radius * std::sin(stackAngle);
+
+        for (uint32 j = 0; j <= NB_SECTORS_SPHERE; j++) {
+		
+			const decimal sectorAngle = j * sectorStep;
+			const decimal x = radiusCosStackAngle * std::cos(sectorAngle);
+			const decimal y = radiusCosStackAngle * std::sin(sectorAngle);
+
+            vertices[i * (NB_SECTORS_SPHERE + 1) + j] = position + Vector3(x, y, z);
+		}
+	}
+
+	// Faces
+    for (uint32 i = 0; i < NB_STACKS_SPHERE; i++) {
+
+        uint32 a1 = i * (NB_SECTORS_SPHERE + 1);
+        uint32 a2 = a1 + NB_SECTORS_SPHERE + 1;
+
+        for (uint32 j = 0; j < NB_SECTORS_SPHERE; j++, a1++, a2++) {
+		
+			// 2 triangles per sector except for the first and last stacks
+
+			if (i != 0) {
+			
+				mTriangles.add(DebugTriangle(vertices[a1], vertices[a2], vertices[a1 + 1], color));
+			}
+
+			if (i != (NB_STACKS_SPHERE - 1)) {
+				
+				mTriangles.add(DebugTriangle(vertices[a1 + 1], vertices[a2], vertices[a2 + 1], color));
+			}
+		}
+	}
+}
+
+// Draw a capsule
+void DebugRenderer::drawCapsule(const Transform& transform, decimal radius, decimal height, uint32 color) {
+
+    Vector3 vertices[(NB_SECTORS_SPHERE + 1) * (NB_STACKS_SPHERE + 1) + (NB_SECTORS_SPHERE + 1)];
+
+    const decimal halfHeight = decimal(0.5) * height;
+
+	// Use an even number of stacks
+    const uint32 nbStacks = NB_STACKS_SPHERE % 2 == 0 ? NB_STACKS_SPHERE : NB_STACKS_SPHERE - 1;
+    const uint32 nbHalfStacks = nbStacks / 2;
+	
+	// Vertices
+    const decimal sectorStep = 2 * PI_RP3D / NB_SECTORS_SPHERE;
+    const decimal stackStep = PI_RP3D / nbStacks;
+	
+    uint32 vertexIndex = 0;
+	
+	// Top cap sphere vertices
+    for (uint32 i = 0; i <= nbHalfStacks; i++) {
+
+        const decimal stackAngle = PI_RP3D / 2 - i * stackStep;
+		const decimal radiusCosStackAngle = radius * std::cos(stackAngle);
+        const decimal y = radius * std::sin(stackAngle);
+
+        for (uint32 j = 0; j <= NB_SECTORS_SPHERE; j++) {
+		
+			const decimal sectorAngle = j * sectorStep;
+            const decimal x = radiusCosStackAngle * std::sin(sectorAngle);
+            const decimal z = radiusCosStackAngle * std::cos(sectorAngle);
+
+            assert(vertexIndex < (NB_SECTORS_SPHERE + 1) * (nbStacks + 1) + (NB_SECTORS_SPHERE + 1));
+			vertices[vertexIndex] = transform * Vector3(x, y + halfHeight, z);
+
+			vertexIndex++;
+		}
+	}
+
+	// Bottom cap sphere vertices
+    for (uint32 i = 0; i <= nbHalfStacks; i++) {
+
+        const decimal stackAngle = PI_RP3D / 2 - (nbHalfStacks + i) * stackStep;
+		const decimal radiusCosStackAngle = radius * std::cos(stackAngle);
+        const decimal y = radius * std::sin(stackAngle);
+
+        for (uint32 j = 0; j <= NB_SECTORS_SPHERE; j++) {
+		
+			const decimal sectorAngle = j * sectorStep;
+            const decimal x = radiusCosStackAngle * std::sin(sectorAngle);
+            const decimal z = radiusCosStackAngle * std::cos(sectorAngle);
+
+            assert(vertexIndex < (NB_SECTORS_SPHERE + 1) * (nbStacks + 1) + (NB_SECTORS_SPHERE + 1));
+            vertices[vertexIndex] = transform * Vector3(x, y - halfHeight, z);
+
+			vertexIndex++;
+		}
+	}
+
+	// Faces of the top cap sphere
+    for (uint32 i = 0; i < nbHalfStacks; i++) {
+
+        uint32 a1 = i * (NB_SECTORS_SPHERE + 1);
+        uint32 a2 = a1 + NB_SECTORS_SPHERE + 1;
+
+        for (uint32 j = 0; j < NB_SECTORS_SPHERE; j++, a1++, a2++) {
+		
+			// 2 triangles per sector except for the first stack
+
+            if (i != 0) {
+
+                mTriangles.add(DebugTriangle(vertices[a1], vertices[a2], vertices[a1 + 1], color));
+            }
+
+            mTriangles.add(DebugTriangle(vertices[a1 + 1], vertices[a2], vertices[a2 + 1], color));
+        }
+	}
+
+	// Faces of the bottom cap sphere
+    for (uint32 i = 0; i < nbHalfStacks; i++) {
+
+        uint32 a1 = (nbHalfStacks + 1) * (NB_SECTORS_SPHERE + 1) + i * (NB_SECTORS_SPHERE + 1);
+        uint32 a2 = a1 + NB_SECTORS_SPHERE + 1;
+
+        for (uint32 j = 0; j < NB_SECTORS_SPHERE; j++, a1++, a2++) {
+		
+			// 2 triangles per sector except for the last stack
+
+            mTriangles.add(DebugTriangle(vertices[a1], vertices[a2], vertices[a1 + 1], color));
+
+            if (i != (nbHalfStacks - 1)) {
+
+                mTriangles.add(DebugTriangle(vertices[a1 + 1], vertices[a2], vertices[a2 + 1], color));
+            }
+        }
+	}
+
+	// Faces of the cylinder between the two spheres
+    uint32 a1 = nbHalfStacks * (NB_SECTORS_SPHERE + 1);
+    uint32 a2 = a1 + NB_SECTORS_SPHERE + 1;
+    for (uint32 i = 0; i < NB_SECTORS_SPHERE; i++, a1++, a2++) {
+
+		mTriangles.add(DebugTriangle(vertices[a1 + 1], vertices[a2], vertices[a2 + 1], color));
+		mTriangles.add(DebugTriangle(vertices[a1], vertices[a2], vertices[a1 + 1], color));
+	}
+}
+
+// Draw a convex mesh
+void DebugRenderer::drawConvexMesh(const Transform& transform, const ConvexMeshShape* convexMesh,
+                                   uint32 colorShape, uint32 colorShapeNormals) {
+
+    const bool drawShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
+    const bool drawNormal = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
+
+    // For each face of the convex mesh
+	for (uint32 f = 0; f < convexMesh->getNbFaces(); f++) {
+
+		const HalfEdgeStructure::Face& face = convexMesh->getFace(f);
+		assert(face.faceVertices.size() >= 3);
+
+        Vector3 centroid;
+
+		// Perform a fan triangulation of the convex polygon face
+        const uint32 nbFaceVertices = static_cast<uint32>(face.faceVertices.size());
+        for (uint32 v = 2; v < nbFaceVertices; v++) {
+
+            uint32 v1Index = face.faceVertices[0];
+            uint32 v2Index = face.faceVertices[v - 1];
+            uint32 v3Index = face.faceVertices[v];
+
+            Vector3 v1 = convexMesh->getVertexPosition(v1Index);
+            Vector3 v2 = convexMesh->getVertexPosition(v2Index);
+            Vector3 v3 = convexMesh->getVertexPosition(v3Index);
+
+            v1 = transform * v1;
+            v2 = transform * v2;
+            v3 = transform * v3;
+
+            if (v == 2) {
+                centroid += v1 + v2;
+            }
+
+            centroid += v3;
+
+            if (drawShape) {
+                mTriangles.add(DebugTriangle(v1, v2, v3, colorShape));
+            }
+		}
+
+        if (drawNormal) {
+
+            centroid /= nbFaceVertices;
+            const Vector3 normalPoint = centroid + transform.getOrientation() * convexMesh->getFaceNormal(f) * mCollisionShapeNormalLength;
+            mLines.add(DebugLine(centroid, normalPoint, colorShapeNormals));
+        }
+    }
+}
+
+// Draw a concave mesh shape
+void DebugRenderer::drawConcaveMeshShape(const Transform& transform, const ConcaveMeshShape* concaveMeshShape,
+                                         uint32 colorShape, uint32 colorShapeNormals) {
+
+    const bool drawShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
+    const bool drawNormal = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
+
+    if (drawShape) {
+
+        // For each triangle of the mesh
+        for (uint32 t = 0; t < concaveMeshShape->getNbTriangles(); t++) {
+
+            Vector3 v1, v2, v3;
+            concaveMeshShape->getTriangleVertices(t, v1, v2, v3);
+
+            v1 = transform * v1;
+            v2 = transform * v2;
+            v3 = transform * v3;
+
+            mTriangles.add(DebugTriangle(v1, v2, v3, colorShape));
+        }
+    }
+
+    if (drawNormal) {
+
+        // For each vertex of the mesh
+        for (uint32 v = 0; v < concaveMeshShape->getNbVertices(); v++) {
+
+            const Vector3& vertex = transform * concaveMeshShape->getVertex(v);
+            const Vector3 normalPoint = vertex + transform.getOrientation() * concaveMeshShape->getVertexNormal(v) * mCollisionShapeNormalLength;
+            mLines.add(DebugLine(vertex, normalPoint, colorShapeNormals));
+        }
+    }
+}
+
+// Draw a height field shape
+void DebugRenderer::drawHeightFieldShape(const Transform& transform, const HeightFieldShape* heightFieldShape,
+                                         uint32 colorShape, uint32 colorShapeNormals) {
+
+    const bool drawShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
+    const bool drawNormal = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
+
+    // For each sub-grid points (except the last ones one each dimension)
+    for (uint32 i = 0; i < heightFieldShape->getHeightField()->getNbColumns() - 1; i++) {
+        for (uint32 j = 0; j < heightFieldShape->getHeightField()->getNbRows() - 1; j++) {
+
+            // Compute the four point of the current quad
+            Vector3 p1 = heightFieldShape->getVertexAt(i, j);
+            Vector3 p2 = heightFieldShape->getVertexAt(i, j + 1);
+            Vector3 p3 = heightFieldShape->getVertexAt(i + 1, j);
+            Vector3 p4 = heightFieldShape->getVertexAt(i + 1, j + 1);
+
+            p1 = transform * p1;
+            p2 = transform * p2;
+            p3 = transform * p3;
+            p4 = transform * p4;
+
+            if (drawShape) {
+
+                mTriangles.add(DebugTriangle(p1, p2, p3, colorShape));
+                mTriangles.add(DebugTriangle(p3, p2, p4, colorShape));
+            }
+
+            if (drawNormal) {
+
+               // Compute the triangle normal
+               Vector3 triangle1Normal = (p2 - p1).cross(p3 - p1).getUnit();
+
+                const Vector3 normalPoint1 = p1 + triangle1Normal * mCollisionShapeNormalLength;
+                const Vector3 normalPoint2 = p2 + triangle1Normal * mCollisionShapeNormalLength;
+                const Vector3 normalPoint3 = p3 + triangle1Normal * mCollisionShapeNormalLength;
+                const Vector3 normalPoint4 = p4 + triangle1Normal * mCollisionShapeNormalLength;
+                mLines.add(DebugLine(p1, normalPoint1, colorShapeNormals));
+                mLines.add(DebugLine(p2, normalPoint2, colorShapeNormals));
+                mLines.add(DebugLine(p3, normalPoint3, colorShapeNormals));
+                mLines.add(DebugLine(p4, normalPoint4, colorShapeNormals));
+            }
+       }
+   }
+}
+
+// Draw the collision shape of a collider
+void DebugRenderer::drawCollisionShapeOfCollider(const Collider* collider) {
+	
+    uint32 colorShape = mMapDebugItemWithColor[DebugItem::COLLISION_SHAPE];
+    uint32 colorShapeNormals = mMapDebugItemWithColor[DebugItem::COLLISION_SHAPE_NORMAL];
+
+    switch (collider->getCollisionShape()->getName()) {
+		
+        case CollisionShapeName::BOX:
+        {
+            const BoxShape* boxShape = static_cast<const BoxShape*>(collider->getCollisionShape());
+            drawBox(collider->getLocalToWorldTransform(), boxShape, colorShape, colorShapeNormals);
+            break;
+        }
+        case CollisionShapeName::SPHERE:
+        {
+            const SphereShape* sphereShape = static_cast<const SphereShape*>(collider->getCollisionShape());
+            drawSphere(collider->getLocalToWorldTransform().getPosition(), sphereShape->getRadius(), colorShape);
+            break;
+        }
+        case CollisionShapeName::CAPSULE:
+        {
+            const CapsuleShape* capsuleShape = static_cast<const CapsuleShape*>(collider->getCollisionShape());
+            drawCapsule(collider->getLocalToWorldTransform(), capsuleShape->getRadius(), capsuleShape->getHeight(), colorShape);
+            break;
+        }
+        case CollisionShapeName::CONVEX_MESH:
+        {
+            const ConvexMeshShape* convexMeshShape = static_cast<const ConvexMeshShape*>(collider->getCollisionShape());
+            drawConvexMesh(collider->getLocalToWorldTransform(), convexMeshShape, colorShape, colorShapeNormals);
+            break;
+        }
+        case CollisionShapeName::TRIANGLE_MESH:
+        {
+            const ConcaveMeshShape* concaveMeshShape = static_cast<const ConcaveMeshShape*>(collider->getCollisionShape());
+            drawConcaveMeshShape(collider->getLocalToWorldTransform(), concaveMeshShape, colorShape, colorShapeNormals);
+            break;
+        }
+        case CollisionShapeName::HEIGHTFIELD:
+        {
+            const HeightFieldShape* heighFieldShape = static_cast<const HeightFieldShape*>(collider->getCollisionShape());
+            drawHeightFieldShape(collider->getLocalToWorldTransform(), heighFieldShape, colorShape, colorShapeNormals);
+            break;
+        }
+        default:
+        {
+            assert(false);
+        }
+    }
+}
+
+// Generate the rendering primitives (triangles, lines, ...) of a physics world
+void DebugRenderer::computeDebugRenderingPrimitives(const PhysicsWorld& world) {
+
+	const bool drawColliderAABB = getIsDebugItemDisplayed(DebugItem::COLLIDER_AABB);
+	const bool drawColliderBroadphaseAABB = getIsDebugItemDisplayed(DebugItem::COLLIDER_BROADPHASE_AABB);
+	const bool drawCollisionShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
+    const bool drawCollisionShapeNormals = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
+
+    const uint32 nbRigidBodies = world.getNbRigidBodies();
+
+    // For each body of the world
+    for (uint32 b = 0; b < nbRigidBodies; b++) {
+
+		// Get a body
+        const Body* body = world.getRigidBody(b);
+
+        if (body->isActive() && body->isDebugEnabled()) {
+
+            // For each collider of the body
+            for (uint32 c = 0; c < body->getNbColliders(); c++) {
+
+                // Get a collider
+                const Collider* collider = body->getCollider(c);
+
+                // If we need to draw the collider AABB
+                if (drawColliderAABB) {
+
+                    drawAABB(collider->getWorldAABB(), mMapDebugItemWithColor[DebugItem::COLLIDER_AABB]);
+                }
+
+                // If we need to draw the collider broad-phase AABB
+                if (drawColliderBroadphaseAABB) {
+
+                    if (collider->getBroadPhaseId() != -1) {
+                        drawAABB(world.mCollisionDetection.mBroadPhaseSystem.getFatAABB(collider->getBroadPhaseId()), mMapDebugItemWithColor[DebugItem::COLLIDER_BROADPHASE_AABB]);
+                    }
+                }
+
+                // If we need to draw the collision shape
+                if (drawCollisionShape || drawCollisionShapeNormals) {
+
+                    drawCollisionShapeOfCollider(collider);
+                }
+            }
+        }
+    }
+}
+
+// Called when some contacts occur
+void DebugRenderer::onContact(const CollisionCallback::CallbackData& callbackData) {
+
+	// If we need to draw contact points
+    if (getIsDebugItemDisplayed(DebugItem::CONTACT_POINT) || getIsDebugItemDisplayed(DebugItem::CONTACT_NORMAL)) {
+
+		// For each contact pair
+        for (uint32 p = 0; p < callbackData.getNbContactPairs(); p++) {
+
+			CollisionCallback::ContactPair contactPair = callbackData.getContactPair(p);
+
+            if (contactPair.getEventType() != CollisionCallback::ContactPair::EventType::ContactExit) {
+
+                // For each contact point of the contact pair
+                for (uint32 c = 0; c < contactPair.getNbContactPoints(); c++) {
+
+                    CollisionCallback::ContactPoint contactPoint = contactPair.getContactPoint(c);
+
+                    Vector3 point = contactPair.getCollider1()->getLocalToWorldTransform() * contactPoint.getLocalPointOnCollider1();
+
+                    if (getIsDebugItemDisplayed(DebugItem::CONTACT_POINT)) {
+
+                        // Contact point
+                        drawSphere(point, mContactPointSphereRadius, mMapDebugItemWithColor[DebugItem::CONTACT_POINT]);
+                    }
+
+                    if (getIsDebugItemDisplayed(DebugItem::CONTACT_NORMAL)) {
+
+                        // Contact normal
+                        mLines.add(DebugLine(point,  point + contactPoint.getWorldNormal() * mContactNormalLength, mMapDebugItemWithColor[DebugItem::CONTACT_NORMAL]));
+                    }
+                }
+            }
+		}
+	}
+}
-- 
2.43.0


From 5cbb84d09c883d834dbf541202d65d1b8519a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 77/81] fix: the debug renderer does not draw spheres and
 capsules when only the normals of the shapes are displayed

---
 src/utils/DebugRenderer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/DebugRenderer.cpp b/src/utils/DebugRenderer.cpp
index 78a0808..b250d25 100644
--- a/src/utils/DebugRenderer.cpp
+++ b/src/utils/DebugRenderer.cpp
@@ -444,13 +444,17 @@ void DebugRenderer::drawCollisionShapeOfCollider(const Collider* collider) {
         case CollisionShapeName::SPHERE:
         {
             const SphereShape* sphereShape = static_cast<const SphereShape*>(collider->getCollisionShape());
-            drawSphere(collider->getLocalToWorldTransform().getPosition(), sphereShape->getRadius(), colorShape);
+            if (getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE)) {
+                drawSphere(collider->getLocalToWorldTransform().getPosition(), sphereShape->getRadius(), colorShape);
+            }
             break;
         }
         case CollisionShapeName::CAPSULE:
         {
             const CapsuleShape* capsuleShape = static_cast<const CapsuleShape*>(collider->getCollisionShape());
-            drawCapsule(collider->getLocalToWorldTransform(), capsuleShape->getRadius(), capsuleShape->getHeight(), colorShape);
+            if (getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE)) {
+                drawCapsule(collider->getLocalToWorldTransform(), capsuleShape->getRadius(), capsuleShape->getHeight(), colorShape);
+            }
             break;
         }
         case CollisionShapeName::CONVEX_MESH:
-- 
2.43.0


From b18bc6aaf3c1479fc11f92a9fe4bbea90b038eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:14 +0000
Subject: [PATCH 78/81] fix: a default logger that is destroyed is not the
 current logger anymore

---
 src/engine/PhysicsCommon.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/engine/PhysicsCommon.cpp b/src/engine/PhysicsCommon.cpp
index b030554..b62d8d7 100644
--- a/src/engine/PhysicsCommon.cpp
+++ b/src/engine/PhysicsCommon.cpp
@@ -799,6 +799,9 @@ void PhysicsCommon::destroyDefaultLogger(DefaultLogger* logger) {
  */
 void PhysicsCommon::deleteDefaultLogger(DefaultLogger* logger) {
 
+   // The logger cannot be the current logger anymore
+   if (mLogger == logger) mLogger = nullptr;
+
    // Call the destructor of the logger
    logger->~DefaultLogger();
 
-- 
2.43.0


From e27dc3bc358be1c62ca9242013c5fce4a20df713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 79/81] fix: restore the original line endings of three files
 changed by earlier fixes

---
 .../narrowphase/SphereVsCapsuleAlgorithm.cpp  |  312 ++---
 .../narrowphase/SphereVsSphereAlgorithm.cpp   |  226 ++--
 src/utils/DebugRenderer.cpp                   | 1136 ++++++++---------
 3 files changed, 837 insertions(+), 837 deletions(-)

diff --git a/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp b/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
index 62df1b7..6fe689f 100755
--- a/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
+++ b/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
@@ -1,156 +1,156 @@
-/********************************************************************************
-* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
-* Copyright (c) 2010-2024 Daniel Chappuis                                       *
-*********************************************************************************
-*                                                                               *
-* This software is provided 'as-is', without any express or implied warranty.   *
-* In no event will the authors be held liable for any damages arising from the  *
-* use of this software.                                                         *
-*                                                                               *
-* Permission is granted to anyone to use this software for any purpose,         *
-* including commercial applications, and to alter it and redistribute it        *
-* freely, subject to the following restrictions:                                *
-*                                                                               *
-* 1. The origin of this software must not be misrepresented; you must not claim *
-*    that you wrote the original software. If you use this software in a        *
-*    product, an acknowledgment in the product documentation would be           *
-*    appreciated but is not required.                                           *
-*                                                                               *
-* 2. Altered source versions must be plainly marked as such, and must not be    *
-*    misrepresented as being the original software.                             *
-*                                                                               *
-* 3. This notice may not be removed or altered from any source distribution.    *
-*                                                                               *
-********************************************************************************/
-
-// Libraries
-#include <reactphysics3d/collision/narrowphase/SphereVsCapsuleAlgorithm.h>
-#include <reactphysics3d/collision/shapes/SphereShape.h>
-#include <reactphysics3d/collision/shapes/CapsuleShape.h>
-#include <reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h>
-
-// We want to use the ReactPhysics3D namespace
-using namespace reactphysics3d;  
-
-// Compute the narrow-phase collision detection between a sphere and a capsule
-// This technique is based on the "Robust Contact Creation for Physics Simulations" presentation
-// by Dirk Gregorius.
-bool SphereVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchStartIndex, uint32 batchNbItems, MemoryAllocator& /*memoryAllocator*/) {
-
-    bool isCollisionFound = false;
-
-    for (uint32 batchIndex = batchStartIndex; batchIndex < batchStartIndex + batchNbItems; batchIndex++) {
-
-        assert(!narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding);
-        assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].nbContactPoints == 0);
-
-        const bool isSphereShape1 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1->getType() == CollisionShapeType::SPHERE;
-
-        const SphereShape* sphereShape = static_cast<SphereShape*>(isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1 : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2);
-        const CapsuleShape* capsuleShape = static_cast<CapsuleShape*>(isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2 : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1);
-
-        const decimal capsuleHeight = capsuleShape->getHeight();
-        const decimal sphereRadius = sphereShape->getRadius();
-        const decimal capsuleRadius = capsuleShape->getRadius();
-
-        // Get the transform from sphere local-space to capsule local-space
-        const Transform& sphereToWorldTransform = isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform;
-        const Transform& capsuleToWorldTransform = isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform;
-        const Transform worldToCapsuleTransform = capsuleToWorldTransform.getInverse();
-        const Transform sphereToCapsuleSpaceTransform = worldToCapsuleTransform * sphereToWorldTransform;
-
-        // Transform the center of the sphere into the local-space of the capsule shape
-        const Vector3 sphereCenter = sphereToCapsuleSpaceTransform.getPosition();
-
-        // Compute the end-points of the inner segment of the capsule
-        const decimal capsuleHalfHeight = capsuleHeight * decimal(0.5);
-        const Vector3 capsuleSegA(0, -capsuleHalfHeight, 0);
-        const Vector3 capsuleSegB(0, capsuleHalfHeight, 0);
-
-        // Compute the point on the inner capsule segment that is the closes to center of sphere
-        const Vector3 closestPointOnSegment = computeClosestPointOnSegment(capsuleSegA, capsuleSegB, sphereCenter);
-
-        // Compute the distance between the sphere center and the closest point on the segment
-        Vector3 sphereCenterToSegment = (closestPointOnSegment - sphereCenter);
-        const decimal sphereSegmentDistanceSquare = sphereCenterToSegment.lengthSquare();
-
-        // Compute the sum of the radius of the sphere and the capsule (virtual sphere)
-        decimal sumRadius = sphereRadius + capsuleRadius;
-
-        // If the collision shapes overlap
-        if (sphereSegmentDistanceSquare < sumRadius * sumRadius) {
-
-            decimal penetrationDepth;
-            Vector3 normalWorld;
-            Vector3 contactPointSphereLocal;
-            Vector3 contactPointCapsuleLocal;
-
-            // If we need to report contacts
-            if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
-
-                // If the sphere center is not on the capsule inner segment
-                if (sphereSegmentDistanceSquare > MACHINE_EPSILON) {
-
-                    decimal sphereSegmentDistance = std::sqrt(sphereSegmentDistanceSquare);
-                    sphereCenterToSegment /= sphereSegmentDistance;
-
-                    contactPointSphereLocal = sphereToCapsuleSpaceTransform.getInverse() * (sphereCenter + sphereCenterToSegment * sphereRadius);
-                    contactPointCapsuleLocal = closestPointOnSegment - sphereCenterToSegment * capsuleRadius;
-
-                    normalWorld = capsuleToWorldTransform.getOrientation() * sphereCenterToSegment;
-
-                    penetrationDepth = sumRadius - sphereSegmentDistance;
-
-                    if (!isSphereShape1) {
-                        normalWorld = -normalWorld;
-                    }
-                }
-                else {  // If the sphere center is on the capsule inner segment (degenerate case)
-
-                    // We take any direction that is orthogonal to the inner capsule segment as a contact normal
-
-                    // Capsule inner segment
-                    Vector3 capsuleSegment = (capsuleSegB - capsuleSegA).getUnit();
-
-                    Vector3 vec1(1, 0, 0);
-                    Vector3 vec2(0, 1, 0);
-
-                    // Get the vectors (among vec1 and vec2) that is the most orthogonal to the capsule inner segment (smallest absolute dot product)
-                    decimal cosA1 = std::abs(capsuleSegment.x);		// abs(vec1.dot(seg2))
-                    decimal cosA2 = std::abs(capsuleSegment.y);	    // abs(vec2.dot(seg2))
-
-                    penetrationDepth = sumRadius;
-
-                    // We choose as a contact normal, any direction that is perpendicular to the inner capsule segment
-                    Vector3 normalCapsuleSpace = cosA1 < cosA2 ? capsuleSegment.cross(vec1) : capsuleSegment.cross(vec2);
-                    normalWorld = capsuleToWorldTransform.getOrientation() * normalCapsuleSpace;
-
-                    if (!isSphereShape1) {
-                        normalWorld = -normalWorld;
-                    }
-
-                    // Compute the two local contact points
-                    contactPointSphereLocal = sphereToCapsuleSpaceTransform.getInverse() * (sphereCenter + normalCapsuleSpace * sphereRadius);
-                    contactPointCapsuleLocal = sphereCenter - normalCapsuleSpace * capsuleRadius;
-                }
-
-                if (penetrationDepth <= decimal(0.0)) {
-
-                    // No collision
-                    continue;
-                }
-
-                // Create the contact info object
-                narrowPhaseInfoBatch.addContactPoint(batchIndex, normalWorld, penetrationDepth,
-                                                 isSphereShape1 ? contactPointSphereLocal : contactPointCapsuleLocal,
-                                                 isSphereShape1 ? contactPointCapsuleLocal : contactPointSphereLocal);
-            }
-
-            narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding = true;
-            isCollisionFound = true;
-            continue;
-        }
-    }
-
-    return isCollisionFound;
-}
+/********************************************************************************
+* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
+* Copyright (c) 2010-2024 Daniel Chappuis                                       *
+*********************************************************************************
+*                                                                               *
+* This software is provided 'as-is', without any express or implied warranty.   *
+* In no event will the authors be held liable for any damages arising from the  *
+* use of this software.                                                         *
+*                                                                               *
+* Permission is granted to anyone to use this software for any purpose,         *
+* including commercial applications, and to alter it and redistribute it        *
+* freely, subject to the following restrictions:                                *
+*                                                                               *
+* 1. The origin of this software must not be misrepresented; you must not claim *
+*    that you wrote the original software. If you use this software in a        *
+*    product, an acknowledgment in the product documentation would be           *
+*    appreciated but is not required.                                           *
+*                                                                               *
+* 2. Altered source versions must be plainly marked as such, and must not be    *
+*    misrepresented as being the original software.                             *
+*                                                                               *
+* 3. This notice may not be removed or altered from any source distribution.    *
+*                                                                               *
+********************************************************************************/
+
+// Libraries
+#include <reactphysics3d/collision/narrowphase/SphereVsCapsuleAlgorithm.h>
+#include <reactphysics3d/collision/shapes/SphereShape.h>
+#include <reactphysics3d/collision/shapes/CapsuleShape.h>
+#include <reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h>
+
+// We want to use the ReactPhysics3D namespace
+using namespace reactphysics3d;  
+
+// Compute the narrow-phase collision detection between a sphere and a capsule
+// This technique is based on the "Robust Contact Creation for Physics Simulations" presentation
+// by Dirk Gregorius.
+bool SphereVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchStartIndex, uint32 batchNbItems, MemoryAllocator& /*memoryAllocator*/) {
+
+    bool isCollisionFound = false;
+
+    for (uint32 batchIndex = batchStartIndex; batchIndex < batchStartIndex + batchNbItems; batchIndex++) {
+
+        assert(!narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding);
+        assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].nbContactPoints == 0);
+
+        const bool isSphereShape1 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1->getType() == CollisionShapeType::SPHERE;
+
+        const SphereShape* sphereShape = static_cast<SphereShape*>(isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1 : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2);
+        const CapsuleShape* capsuleShape = static_cast<CapsuleShape*>(isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2 : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1);
+
+        const decimal capsuleHeight = capsuleShape->getHeight();
+        const decimal sphereRadius = sphereShape->getRadius();
+        const decimal capsuleRadius = capsuleShape->getRadius();
+
+        // Get the transform from sphere local-space to capsule local-space
+        const Transform& sphereToWorldTransform = isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform;
+        const Transform& capsuleToWorldTransform = isSphereShape1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform : narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform;
+        const Transform worldToCapsuleTransform = capsuleToWorldTransform.getInverse();
+        const Transform sphereToCapsuleSpaceTransform = worldToCapsuleTransform * sphereToWorldTransform;
+
+        // Transform the center of the sphere into the local-space of the capsule shape
+        const Vector3 sphereCenter = sphereToCapsuleSpaceTransform.getPosition();
+
+        // Compute the end-points of the inner segment of the capsule
+        const decimal capsuleHalfHeight = capsuleHeight * decimal(0.5);
+        const Vector3 capsuleSegA(0, -capsuleHalfHeight, 0);
+        const Vector3 capsuleSegB(0, capsuleHalfHeight, 0);
+
+        // Compute the point on the inner capsule segment that is the closes to center of sphere
+        const Vector3 closestPointOnSegment = computeClosestPointOnSegment(capsuleSegA, capsuleSegB, sphereCenter);
+
+        // Compute the distance between the sphere center and the closest point on the segment
+        Vector3 sphereCenterToSegment = (closestPointOnSegment - sphereCenter);
+        const decimal sphereSegmentDistanceSquare = sphereCenterToSegment.lengthSquare();
+
+        // Compute the sum of the radius of the sphere and the capsule (virtual sphere)
+        decimal sumRadius = sphereRadius + capsuleRadius;
+
+        // If the collision shapes overlap
+        if (sphereSegmentDistanceSquare < sumRadius * sumRadius) {
+
+            decimal penetrationDepth;
+            Vector3 normalWorld;
+            Vector3 contactPointSphereLocal;
+            Vector3 contactPointCapsuleLocal;
+
+            // If we need to report contacts
+            if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
+
+                // If the sphere center is not on the capsule inner segment
+                if (sphereSegmentDistanceSquare > MACHINE_EPSILON) {
+
+                    decimal sphereSegmentDistance = std::sqrt(sphereSegmentDistanceSquare);
+                    sphereCenterToSegment /= sphereSegmentDistance;
+
+                    contactPointSphereLocal = sphereToCapsuleSpaceTransform.getInverse() * (sphereCenter + sphereCenterToSegment * sphereRadius);
+                    contactPointCapsuleLocal = closestPointOnSegment - sphereCenterToSegment * capsuleRadius;
+
+                    normalWorld = capsuleToWorldTransform.getOrientation() * sphereCenterToSegment;
+
+                    penetrationDepth = sumRadius - sphereSegmentDistance;
+
+                    if (!isSphereShape1) {
+                        normalWorld = -normalWorld;
+                    }
+                }
+                else {  // If the sphere center is on the capsule inner segment (degenerate case)
+
+                    // We take any direction that is orthogonal to the inner capsule segment as a contact normal
+
+                    // Capsule inner segment
+                    Vector3 capsuleSegment = (capsuleSegB - capsuleSegA).getUnit();
+
+                    Vector3 vec1(1, 0, 0);
+                    Vector3 vec2(0, 1, 0);
+
+                    // Get the vectors (among vec1 and vec2) that is the most orthogonal to the capsule inner segment (smallest absolute dot product)
+                    decimal cosA1 = std::abs(capsuleSegment.x);		// abs(vec1.dot(seg2))
+                    decimal cosA2 = std::abs(capsuleSegment.y);	    // abs(vec2.dot(seg2))
+
+                    penetrationDepth = sumRadius;
+
+                    // We choose as a contact normal, any direction that is perpendicular to the inner capsule segment
+                    Vector3 normalCapsuleSpace = cosA1 < cosA2 ? capsuleSegment.cross(vec1) : capsuleSegment.cross(vec2);
+                    normalWorld = capsuleToWorldTransform.getOrientation() * normalCapsuleSpace;
+
+                    if (!isSphereShape1) {
+                        normalWorld = -normalWorld;
+                    }
+
+                    // Compute the two local contact points
+                    contactPointSphereLocal = sphereToCapsuleSpaceTransform.getInverse() * (sphereCenter + normalCapsuleSpace * sphereRadius);
+                    contactPointCapsuleLocal = sphereCenter - normalCapsuleSpace * capsuleRadius;
+                }
+
+                if (penetrationDepth <= decimal(0.0)) {
+
+                    // No collision
+                    continue;
+                }
+
+                // Create the contact info object
+                narrowPhaseInfoBatch.addContactPoint(batchIndex, normalWorld, penetrationDepth,
+                                                 isSphereShape1 ? contactPointSphereLocal : contactPointCapsuleLocal,
+                                                 isSphereShape1 ? contactPointCapsuleLocal : contactPointSphereLocal);
+            }
+
+            narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding = true;
+            isCollisionFound = true;
+            continue;
+        }
+    }
+
+    return isCollisionFound;
+}
diff --git a/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp b/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp
index 41894c7..d6148e8 100755
--- a/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp
+++ b/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp
@@ -1,113 +1,113 @@
-/********************************************************************************
-* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
-* Copyright (c) 2010-2024 Daniel Chappuis                                       *
-*********************************************************************************
-*                                                                               *
-* This software is provided 'as-is', without any express or implied warranty.   *
-* In no event will the authors be held liable for any damages arising from the  *
-* use of this software.                                                         *
-*                                                                               *
-* Permission is granted to anyone to use this software for any purpose,         *
-* including commercial applications, and to alter it and redistribute it        *
-* freely, subject to the following restrictions:                                *
-*                                                                               *
-* 1. The origin of this software must not be misrepresented; you must not claim *
-*    that you wrote the original software. If you use this software in a        *
-*    product, an acknowledgment in the product documentation would be           *
-*    appreciated but is not required.                                           *
-*                                                                               *
-* 2. Altered source versions must be plainly marked as such, and must not be    *
-*    misrepresented as being the original software.                             *
-*                                                                               *
-* 3. This notice may not be removed or altered from any source distribution.    *
-*                                                                               *
-********************************************************************************/
-
-// Libraries
-#include <reactphysics3d/collision/narrowphase/SphereVsSphereAlgorithm.h>
-#include <reactphysics3d/collision/shapes/SphereShape.h>
-#include <reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h>
-
-// We want to use the ReactPhysics3D namespace
-using namespace reactphysics3d;  
-
-bool SphereVsSphereAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchStartIndex, uint32 batchNbItems, MemoryAllocator& /*memoryAllocator*/) {
-
-    bool isCollisionFound = false;
-
-    // For each item in the batch
-    for (uint32 batchIndex = batchStartIndex; batchIndex < batchStartIndex + batchNbItems; batchIndex++) {
-
-        assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].nbContactPoints == 0);
-        assert(!narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding);
-
-        // Get the local-space to world-space transforms
-        const Transform& transform1 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform;
-        const Transform& transform2 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform;
-
-        // Compute the distance between the centers
-        Vector3 vectorBetweenCenters = transform2.getPosition() - transform1.getPosition();
-        decimal squaredDistanceBetweenCenters = vectorBetweenCenters.lengthSquare();
-
-        const SphereShape* sphereShape1 = static_cast<SphereShape*>(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1);
-        const SphereShape* sphereShape2 = static_cast<SphereShape*>(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2);
-
-        const decimal sphere1Radius = sphereShape1->getRadius();
-        const decimal sphere2Radius = sphereShape2->getRadius();
-
-        // Compute the sum of the radius
-        const decimal sumRadiuses = sphere1Radius + sphere2Radius;
-
-        // Compute the product of the sum of the radius
-        const decimal sumRadiusesProducts = sumRadiuses * sumRadiuses;
-
-        // If the sphere collision shapes intersect
-        if (squaredDistanceBetweenCenters < sumRadiusesProducts) {
-
-            const decimal penetrationDepth = sumRadiuses - std::sqrt(squaredDistanceBetweenCenters);
-
-            // Make sure the penetration depth is not zero (even if the previous condition test was true the penetration depth can still be
-            // zero because of precision issue of the computation at the previous line)
-            if (penetrationDepth > 0) {
-
-                // If we need to report contacts
-                if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
-
-                    const Transform transform1Inverse = transform1.getInverse();
-                    const Transform transform2Inverse = transform2.getInverse();
-
-                    Vector3 intersectionOnBody1;
-                    Vector3 intersectionOnBody2;
-                    Vector3 normal;
-
-                    // If the two sphere centers are not at the same position
-                    if (squaredDistanceBetweenCenters > MACHINE_EPSILON) {
-
-                        const Vector3 centerSphere2InBody1LocalSpace = transform1Inverse * transform2.getPosition();
-                        const Vector3 centerSphere1InBody2LocalSpace = transform2Inverse * transform1.getPosition();
-
-                        intersectionOnBody1 = sphere1Radius * centerSphere2InBody1LocalSpace.getUnit();
-                        intersectionOnBody2 = sphere2Radius * centerSphere1InBody2LocalSpace.getUnit();
-                        normal = vectorBetweenCenters.getUnit();
-                    }
-                    else {    // If the sphere centers are at the same position (degenerate case)
-
-                        // Take any contact normal direction
-                        normal.setAllValues(0, 1, 0);
-
-                        intersectionOnBody1 = sphere1Radius * (transform1Inverse.getOrientation() * normal);
-                        intersectionOnBody2 = -sphere2Radius * (transform2Inverse.getOrientation() * normal);
-                    }
-
-                    // Create the contact info object
-                    narrowPhaseInfoBatch.addContactPoint(batchIndex, normal, penetrationDepth, intersectionOnBody1, intersectionOnBody2);
-                }
-
-                narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding = true;
-                isCollisionFound = true;
-            }
-        }
-    }
-
-    return isCollisionFound;
-}
+/********************************************************************************
+* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
+* Copyright (c) 2010-2024 Daniel Chappuis                                       *
+*********************************************************************************
+*                                                                               *
+* This software is provided 'as-is', without any express or implied warranty.   *
+* In no event will the authors be held liable for any damages arising from the  *
+* use of this software.                                                         *
+*                                                                               *
+* Permission is granted to anyone to use this software for any purpose,         *
+* including commercial applications, and to alter it and redistribute it        *
+* freely, subject to the following restrictions:                                *
+*                                                                               *
+* 1. The origin of this software must not be misrepresented; you must not claim *
+*    that you wrote the original software. If you use this software in a        *
+*    product, an acknowledgment in the product documentation would be           *
+*    appreciated but is not required.                                           *
+*                                                                               *
+* 2. Altered source versions must be plainly marked as such, and must not be    *
+*    misrepresented as being the original software.                             *
+*                                                                               *
+* 3. This notice may not be removed or altered from any source distribution.    *
+*                                                                               *
+********************************************************************************/
+
+// Libraries
+#include <reactphysics3d/collision/narrowphase/SphereVsSphereAlgorithm.h>
+#include <reactphysics3d/collision/shapes/SphereShape.h>
+#include <reactphysics3d/collision/narrowphase/NarrowPhaseInfoBatch.h>
+
+// We want to use the ReactPhysics3D namespace
+using namespace reactphysics3d;  
+
+bool SphereVsSphereAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchStartIndex, uint32 batchNbItems, MemoryAllocator& /*memoryAllocator*/) {
+
+    bool isCollisionFound = false;
+
+    // For each item in the batch
+    for (uint32 batchIndex = batchStartIndex; batchIndex < batchStartIndex + batchNbItems; batchIndex++) {
+
+        assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].nbContactPoints == 0);
+        assert(!narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding);
+
+        // Get the local-space to world-space transforms
+        const Transform& transform1 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform;
+        const Transform& transform2 = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform;
+
+        // Compute the distance between the centers
+        Vector3 vectorBetweenCenters = transform2.getPosition() - transform1.getPosition();
+        decimal squaredDistanceBetweenCenters = vectorBetweenCenters.lengthSquare();
+
+        const SphereShape* sphereShape1 = static_cast<SphereShape*>(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1);
+        const SphereShape* sphereShape2 = static_cast<SphereShape*>(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2);
+
+        const decimal sphere1Radius = sphereShape1->getRadius();
+        const decimal sphere2Radius = sphereShape2->getRadius();
+
+        // Compute the sum of the radius
+        const decimal sumRadiuses = sphere1Radius + sphere2Radius;
+
+        // Compute the product of the sum of the radius
+        const decimal sumRadiusesProducts = sumRadiuses * sumRadiuses;
+
+        // If the sphere collision shapes intersect
+        if (squaredDistanceBetweenCenters < sumRadiusesProducts) {
+
+            const decimal penetrationDepth = sumRadiuses - std::sqrt(squaredDistanceBetweenCenters);
+
+            // Make sure the penetration depth is not zero (even if the previous condition test was true the penetration depth can still be
+            // zero because of precision issue of the computation at the previous line)
+            if (penetrationDepth > 0) {
+
+                // If we need to report contacts
+                if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
+
+                    const Transform transform1Inverse = transform1.getInverse();
+                    const Transform transform2Inverse = transform2.getInverse();
+
+                    Vector3 intersectionOnBody1;
+                    Vector3 intersectionOnBody2;
+                    Vector3 normal;
+
+                    // If the two sphere centers are not at the same position
+                    if (squaredDistanceBetweenCenters > MACHINE_EPSILON) {
+
+                        const Vector3 centerSphere2InBody1LocalSpace = transform1Inverse * transform2.getPosition();
+                        const Vector3 centerSphere1InBody2LocalSpace = transform2Inverse * transform1.getPosition();
+
+                        intersectionOnBody1 = sphere1Radius * centerSphere2InBody1LocalSpace.getUnit();
+                        intersectionOnBody2 = sphere2Radius * centerSphere1InBody2LocalSpace.getUnit();
+                        normal = vectorBetweenCenters.getUnit();
+                    }
+                    else {    // If the sphere centers are at the same position (degenerate case)
+
+                        // Take any contact normal direction
+                        normal.setAllValues(0, 1, 0);
+
+                        intersectionOnBody1 = sphere1Radius * (transform1Inverse.getOrientation() * normal);
+                        intersectionOnBody2 = -sphere2Radius * (transform2Inverse.getOrientation() * normal);
+                    }
+
+                    // Create the contact info object
+                    narrowPhaseInfoBatch.addContactPoint(batchIndex, normal, penetrationDepth, intersectionOnBody1, intersectionOnBody2);
+                }
+
+                narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].isColliding = true;
+                isCollisionFound = true;
+            }
+        }
+    }
+
+    return isCollisionFound;
+}
diff --git a/src/utils/DebugRenderer.cpp b/src/utils/DebugRenderer.cpp
index b250d25..7a48737 100644
--- a/src/utils/DebugRenderer.cpp
+++ b/src/utils/DebugRenderer.cpp
@@ -1,568 +1,568 @@
-/********************************************************************************
-* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
-* Copyright (c) 2010-2024 Daniel Chappuis                                       *
-*********************************************************************************
-*                                                                               *
-* This software is provided 'as-is', without any express or implied warranty.   *
-* In no event will the authors be held liable for any damages arising from the  *
-* use of this software.                                                         *
-*                                                                               *
-* Permission is granted to anyone to use this software for any purpose,         *
-* including commercial applications, and to alter it and redistribute it        *
-* freely, subject to the following restrictions:                                *
-*                                                                               *
-* 1. The origin of this software must not be misrepresented; you must not claim *
-*    that you wrote the original software. If you use this software in a        *
-*    product, an acknowledgment in the product documentation would be           *
-*    appreciated but is not required.                                           *
-*                                                                               *
-* 2. Altered source versions must be plainly marked as such, and must not be    *
-*    misrepresented as being the original software.                             *
-*                                                                               *
-* 3. This notice may not be removed or altered from any source distribution.    *
-*                                                                               *
-********************************************************************************/
-
-// Libraries
-#include <reactphysics3d/utils/DebugRenderer.h>
-#include <reactphysics3d/memory/MemoryManager.h>
-#include <cassert>
-#include <reactphysics3d/collision/shapes/ConvexMeshShape.h>
-#include <reactphysics3d/collision/shapes/ConcaveMeshShape.h>
-#include <reactphysics3d/collision/shapes/HeightFieldShape.h>
-#include <reactphysics3d/collision/shapes/BoxShape.h>
-#include <reactphysics3d/collision/shapes/SphereShape.h>
-#include <reactphysics3d/collision/shapes/CapsuleShape.h>
-#include <reactphysics3d/collision/Collider.h>
-#include <reactphysics3d/engine/PhysicsWorld.h>
-#include <reactphysics3d/containers/Pair.h>
-
-using namespace reactphysics3d;
-
-// Constructor
-DebugRenderer::DebugRenderer(MemoryAllocator& allocator)
-              :mAllocator(allocator), mLines(allocator), mTriangles(allocator), mDisplayedDebugItems(0), mMapDebugItemWithColor(allocator),
-               mContactPointSphereRadius(DEFAULT_CONTACT_POINT_SPHERE_RADIUS), mContactNormalLength(DEFAULT_CONTACT_NORMAL_LENGTH),
-               mCollisionShapeNormalLength(DEFAULT_COLLISION_SHAPE_NORMAL_LENGTH) {
-
-    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::COLLIDER_AABB, static_cast<uint32>(DebugColor::MAGENTA)));
-    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::COLLIDER_BROADPHASE_AABB, static_cast<uint32>(DebugColor::YELLOW)));
-	mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::COLLISION_SHAPE, static_cast<uint32>(DebugColor::GREEN)));
-    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::CONTACT_POINT, static_cast<uint32>(DebugColor::RED)));
-    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::CONTACT_NORMAL, static_cast<uint32>(DebugColor::WHITE)));
-    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::COLLISION_SHAPE_NORMAL, static_cast<uint32>(DebugColor::BLUE)));
-}
-
-// Destructor
-DebugRenderer::~DebugRenderer() {
-
-}
-
-// Clear all the debugging primitives (points, lines, triangles, ...)
-void DebugRenderer::reset() {
-
-	mLines.clear();
-	mTriangles.clear();
-}
-
-// Draw an AABB
-void DebugRenderer::drawAABB(const AABB& aabb, uint32 color) {
-	
-	const Vector3& min = aabb.getMin();
-	const Vector3& max = aabb.getMax();
-
-	// Bottom edges
-	mLines.add(DebugLine(Vector3(min.x, min.y, max.z), Vector3(max.x, min.y, max.z), color));
-	mLines.add(DebugLine(Vector3(max.x, min.y, max.z),  Vector3(max.x, min.y, min.z), color));
-	mLines.add(DebugLine(Vector3(max.x, min.y, min.z), Vector3(min.x, min.y, min.z), color));
-	mLines.add(DebugLine(Vector3(min.x, min.y, min.z), Vector3(min.x, min.y, max.z), color));
-
-	// Top edges
-	mLines.add(DebugLine(Vector3(min.x, max.y, max.z), Vector3(max.x, max.y, max.z), color));
-	mLines.add(DebugLine(Vector3(max.x, max.y, max.z), Vector3(max.x, max.y, min.z), color));
-	mLines.add(DebugLine(Vector3(max.x, max.y, min.z), Vector3(min.x, max.y, min.z), color));
-	mLines.add(DebugLine(Vector3(min.x, max.y, min.z), Vector3(min.x, max.y, max.z), color));
-
-	// Side edges
-	mLines.add(DebugLine(Vector3(min.x, min.y, max.z), Vector3(min.x, max.y, max.z), color));
-	mLines.add(DebugLine(Vector3(max.x, min.y, max.z), Vector3(max.x, max.y, max.z), color));
-	mLines.add(DebugLine(Vector3(max.x, min.y, min.z), Vector3(max.x, max.y, min.z), color));
-	mLines.add(DebugLine(Vector3(min.x, min.y, min.z), Vector3(min.x, max.y, min.z), color));
-}
-
-// Draw a box
-void DebugRenderer::drawBox(const Transform& transform, const BoxShape* boxShape, uint32 colorShape, uint32 colorShapeNormals) {
-
-    const bool drawShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
-    const bool drawNormal = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
-
-    Vector3 halfExtents = boxShape->getHalfExtents();
-	Vector3 vertices[8];
-
-	// Vertices
-	vertices[0] = transform * Vector3(-halfExtents.x, -halfExtents.y, halfExtents.z);
-	vertices[1] = transform * Vector3(halfExtents.x, -halfExtents.y, halfExtents.z);
-	vertices[2] = transform * Vector3(halfExtents.x, -halfExtents.y, -halfExtents.z);
-	vertices[3] = transform * Vector3(-halfExtents.x, -halfExtents.y, -halfExtents.z);
-	vertices[4] = transform * Vector3(-halfExtents.x, halfExtents.y, halfExtents.z);
-	vertices[5] = transform * Vector3(halfExtents.x, halfExtents.y, halfExtents.z);
-	vertices[6] = transform * Vector3(halfExtents.x, halfExtents.y, -halfExtents.z);
-	vertices[7] = transform * Vector3(-halfExtents.x, halfExtents.y, -halfExtents.z);
-
-    if (drawShape) {
-
-        // Triangle faces
-        mTriangles.add(DebugTriangle(vertices[0], vertices[1], vertices[5], colorShape));
-        mTriangles.add(DebugTriangle(vertices[0], vertices[5], vertices[4], colorShape));
-        mTriangles.add(DebugTriangle(vertices[1], vertices[2], vertices[6], colorShape));
-        mTriangles.add(DebugTriangle(vertices[1], vertices[6], vertices[5], colorShape));
-        mTriangles.add(DebugTriangle(vertices[2], vertices[3], vertices[6], colorShape));
-        mTriangles.add(DebugTriangle(vertices[3], vertices[7], vertices[6], colorShape));
-        mTriangles.add(DebugTriangle(vertices[0], vertices[7], vertices[3], colorShape));
-        mTriangles.add(DebugTriangle(vertices[0], vertices[4], vertices[7], colorShape));
-        mTriangles.add(DebugTriangle(vertices[0], vertices[2], vertices[1], colorShape));
-        mTriangles.add(DebugTriangle(vertices[0], vertices[3], vertices[2], colorShape));
-        mTriangles.add(DebugTriangle(vertices[5], vertices[6], vertices[4], colorShape));
-        mTriangles.add(DebugTriangle(vertices[4], vertices[6], vertices[7], colorShape));
-    }
-
-    if (drawNormal) {
-
-        // Face normals
-        for (int f=0; f < 6; f++) {
-
-            const HalfEdgeStructure::Face& face = boxShape->getFace(f);
-            const Vector3 facePoint = 0.25 * (boxShape->getVertexPosition(face.faceVertices[0]) + boxShape->getVertexPosition(face.faceVertices[1]) +
-                         boxShape->getVertexPosition(face.faceVertices[2]) + boxShape->getVertexPosition(face.faceVertices[3]));
-            const Vector3 normalPoint = facePoint + mCollisionShapeNormalLength * boxShape->getFaceNormal(f);
-
-            mLines.add(DebugLine(transform * facePoint, transform * normalPoint, colorShapeNormals));
-        }
-    }
-
-}
-
-/// Draw a sphere
-void DebugRenderer::drawSphere(const Vector3& position, decimal radius, uint32 color) {
-
-    Vector3 vertices[(NB_SECTORS_SPHERE + 1) * (NB_STACKS_SPHERE + 1) + (NB_SECTORS_SPHERE + 1)];
-	
-	// Vertices
-    const decimal sectorStep = 2 * PI_RP3D / NB_SECTORS_SPHERE;
-    const decimal stackStep = PI_RP3D / NB_STACKS_SPHERE;
-	
-    for (uint32 i = 0; i <= NB_STACKS_SPHERE; i++) {
-
-        const decimal stackAngle = PI_RP3D / 2 - i * stackStep;
-		const decimal radiusCosStackAngle = radius * std::cos(stackAngle);
-		const decimal z = radius * std::sin(stackAngle);
-
-        for (uint32 j = 0; j <= NB_SECTORS_SPHERE; j++) {
-		
-			const decimal sectorAngle = j * sectorStep;
-			const decimal x = radiusCosStackAngle * std::cos(sectorAngle);
-			const decimal y = radiusCosStackAngle * std::sin(sectorAngle);
-
-            vertices[i * (NB_SECTORS_SPHERE + 1) + j] = position + Vector3(x, y, z);
-		}
-	}
-
-	// Faces
-    for (uint32 i = 0; i < NB_STACKS_SPHERE; i++) {
-
-        uint32 a1 = i * (NB_SECTORS_SPHERE + 1);
-        uint32 a2 = a1 + NB_SECTORS_SPHERE + 1;
-
-        for (uint32 j = 0; j < NB_SECTORS_SPHERE; j++, a1++, a2++) {
-		
-			// 2 triangles per sector except for the first and last stacks
-
-			if (i != 0) {
-			
-				mTriangles.add(DebugTriangle(vertices[a1], vertices[a2], vertices[a1 + 1], color));
-			}
-
-			if (i != (NB_STACKS_SPHERE - 1)) {
-				
-				mTriangles.add(DebugTriangle(vertices[a1 + 1], vertices[a2], vertices[a2 + 1], color));
-			}
-		}
-	}
-}
-
-// Draw a capsule
-void DebugRenderer::drawCapsule(const Transform& transform, decimal radius, decimal height, uint32 color) {
-
-    Vector3 vertices[(NB_SECTORS_SPHERE + 1) * (NB_STACKS_SPHERE + 1) + (NB_SECTORS_SPHERE + 1)];
-
-    const decimal halfHeight = decimal(0.5) * height;
-
-	// Use an even number of stacks
-    const uint32 nbStacks = NB_STACKS_SPHERE % 2 == 0 ? NB_STACKS_SPHERE : NB_STACKS_SPHERE - 1;
-    const uint32 nbHalfStacks = nbStacks / 2;
-	
-	// Vertices
-    const decimal sectorStep = 2 * PI_RP3D / NB_SECTORS_SPHERE;
-    const decimal stackStep = PI_RP3D / nbStacks;
-	
-    uint32 vertexIndex = 0;
-	
-	// Top cap sphere vertices
-    for (uint32 i = 0; i <= nbHalfStacks; i++) {
-
-        const decimal stackAngle = PI_RP3D / 2 - i * stackStep;
-		const decimal radiusCosStackAngle = radius * std::cos(stackAngle);
-        const decimal y = radius * std::sin(stackAngle);
-
-        for (uint32 j = 0; j <= NB_SECTORS_SPHERE; j++) {
-		
-			const decimal sectorAngle = j * sectorStep;
-            const decimal x = radiusCosStackAngle * std::sin(sectorAngle);
-            const decimal z = radiusCosStackAngle * std::cos(sectorAngle);
-
-            assert(vertexIndex < (NB_SECTORS_SPHERE + 1) * (nbStacks + 1) + (NB_SECTORS_SPHERE + 1));
-			vertices[vertexIndex] = transform * Vector3(x, y + halfHeight, z);
-
-			vertexIndex++;
-		}
-	}
-
-	// Bottom cap sphere vertices
-    for (uint32 i = 0; i <= nbHalfStacks; i++) {
-
-        const decimal stackAngle = PI_RP3D / 2 - (nbHalfStacks + i) * stackStep;
-		const decimal radiusCosStackAngle = radius * std::cos(stackAngle);
-        const decimal y = radius * std::sin(stackAngle);
-
-        for (uint32 j = 0; j <= NB_SECTORS_SPHERE; j++) {
-		
-			const decimal sectorAngle = j * sectorStep;
-            const decimal x = radiusCosStackAngle * std::sin(sectorAngle);
-            const decimal z = radiusCosStackAngle * std::cos(sectorAngle);
-
-            assert(vertexIndex < (NB_SECTORS_SPHERE + 1) * (nbStacks + 1) + (NB_SECTORS_SPHERE + 1));
-            vertices[vertexIndex] = transform * Vector3(x, y - halfHeight, z);
-
-			vertexIndex++;
-		}
-	}
-
-	// Faces of the top cap sphere
-    for (uint32 i = 0; i < nbHalfStacks; i++) {
-
-        uint32 a1 = i * (NB_SECTORS_SPHERE + 1);
-        uint32 a2 = a1 + NB_SECTORS_SPHERE + 1;
-
-        for (uint32 j = 0; j < NB_SECTORS_SPHERE; j++, a1++, a2++) {
-		
-			// 2 triangles per sector except for the first stack
-
-            if (i != 0) {
-
-                mTriangles.add(DebugTriangle(vertices[a1], vertices[a2], vertices[a1 + 1], color));
-            }
-
-            mTriangles.add(DebugTriangle(vertices[a1 + 1], vertices[a2], vertices[a2 + 1], color));
-        }
-	}
-
-	// Faces of the bottom cap sphere
-    for (uint32 i = 0; i < nbHalfStacks; i++) {
-
-        uint32 a1 = (nbHalfStacks + 1) * (NB_SECTORS_SPHERE + 1) + i * (NB_SECTORS_SPHERE + 1);
-        uint32 a2 = a1 + NB_SECTORS_SPHERE + 1;
-
-        for (uint32 j = 0; j < NB_SECTORS_SPHERE; j++, a1++, a2++) {
-		
-			// 2 triangles per sector except for the last stack
-
-            mTriangles.add(DebugTriangle(vertices[a1], vertices[a2], vertices[a1 + 1], color));
-
-            if (i != (nbHalfStacks - 1)) {
-
-                mTriangles.add(DebugTriangle(vertices[a1 + 1], vertices[a2], vertices[a2 + 1], color));
-            }
-        }
-	}
-
-	// Faces of the cylinder between the two spheres
-    uint32 a1 = nbHalfStacks * (NB_SECTORS_SPHERE + 1);
-    uint32 a2 = a1 + NB_SECTORS_SPHERE + 1;
-    for (uint32 i = 0; i < NB_SECTORS_SPHERE; i++, a1++, a2++) {
-
-		mTriangles.add(DebugTriangle(vertices[a1 + 1], vertices[a2], vertices[a2 + 1], color));
-		mTriangles.add(DebugTriangle(vertices[a1], vertices[a2], vertices[a1 + 1], color));
-	}
-}
-
-// Draw a convex mesh
-void DebugRenderer::drawConvexMesh(const Transform& transform, const ConvexMeshShape* convexMesh,
-                                   uint32 colorShape, uint32 colorShapeNormals) {
-
-    const bool drawShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
-    const bool drawNormal = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
-
-    // For each face of the convex mesh
-	for (uint32 f = 0; f < convexMesh->getNbFaces(); f++) {
-
-		const HalfEdgeStructure::Face& face = convexMesh->getFace(f);
-		assert(face.faceVertices.size() >= 3);
-
-        Vector3 centroid;
-
-		// Perform a fan triangulation of the convex polygon face
-        const uint32 nbFaceVertices = static_cast<uint32>(face.faceVertices.size());
-        for (uint32 v = 2; v < nbFaceVertices; v++) {
-
-            uint32 v1Index = face.faceVertices[0];
-            uint32 v2Index = face.faceVertices[v - 1];
-            uint32 v3Index = face.faceVertices[v];
-
-            Vector3 v1 = convexMesh->getVertexPosition(v1Index);
-            Vector3 v2 = convexMesh->getVertexPosition(v2Index);
-            Vector3 v3 = convexMesh->getVertexPosition(v3Index);
-
-            v1 = transform * v1;
-            v2 = transform * v2;
-            v3 = transform * v3;
-
-            if (v == 2) {
-                centroid += v1 + v2;
-            }
-
-            centroid += v3;
-
-            if (drawShape) {
-                mTriangles.add(DebugTriangle(v1, v2, v3, colorShape));
-            }
-		}
-
-        if (drawNormal) {
-
-            centroid /= nbFaceVertices;
-            const Vector3 normalPoint = centroid + transform.getOrientation() * convexMesh->getFaceNormal(f) * mCollisionShapeNormalLength;
-            mLines.add(DebugLine(centroid, normalPoint, colorShapeNormals));
-        }
-    }
-}
-
-// Draw a concave mesh shape
-void DebugRenderer::drawConcaveMeshShape(const Transform& transform, const ConcaveMeshShape* concaveMeshShape,
-                                         uint32 colorShape, uint32 colorShapeNormals) {
-
-    const bool drawShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
-    const bool drawNormal = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
-
-    if (drawShape) {
-
-        // For each triangle of the mesh
-        for (uint32 t = 0; t < concaveMeshShape->getNbTriangles(); t++) {
-
-            Vector3 v1, v2, v3;
-            concaveMeshShape->getTriangleVertices(t, v1, v2, v3);
-
-            v1 = transform * v1;
-            v2 = transform * v2;
-            v3 = transform * v3;
-
-            mTriangles.add(DebugTriangle(v1, v2, v3, colorShape));
-        }
-    }
-
-    if (drawNormal) {
-
-        // For each vertex of the mesh
-        for (uint32 v = 0; v < concaveMeshShape->getNbVertices(); v++) {
-
-            const Vector3& vertex = transform * concaveMeshShape->getVertex(v);
-            const Vector3 normalPoint = vertex + transform.getOrientation() * concaveMeshShape->getVertexNormal(v) * mCollisionShapeNormalLength;
-            mLines.add(DebugLine(vertex, normalPoint, colorShapeNormals));
-        }
-    }
-}
-
-// Draw a height field shape
-void DebugRenderer::drawHeightFieldShape(const Transform& transform, const HeightFieldShape* heightFieldShape,
-                                         uint32 colorShape, uint32 colorShapeNormals) {
-
-    const bool drawShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
-    const bool drawNormal = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
-
-    // For each sub-grid points (except the last ones one each dimension)
-    for (uint32 i = 0; i < heightFieldShape->getHeightField()->getNbColumns() - 1; i++) {
-        for (uint32 j = 0; j < heightFieldShape->getHeightField()->getNbRows() - 1; j++) {
-
-            // Compute the four point of the current quad
-            Vector3 p1 = heightFieldShape->getVertexAt(i, j);
-            Vector3 p2 = heightFieldShape->getVertexAt(i, j + 1);
-            Vector3 p3 = heightFieldShape->getVertexAt(i + 1, j);
-            Vector3 p4 = heightFieldShape->getVertexAt(i + 1, j + 1);
-
-            p1 = transform * p1;
-            p2 = transform * p2;
-            p3 = transform * p3;
-            p4 = transform * p4;
-
-            if (drawShape) {
-
-                mTriangles.add(DebugTriangle(p1, p2, p3, colorShape));
-                mTriangles.add(DebugTriangle(p3, p2, p4, colorShape));
-            }
-
-            if (drawNormal) {
-
-               // Compute the triangle normal
-               Vector3 triangle1Normal = (p2 - p1).cross(p3 - p1).getUnit();
-
-                const Vector3 normalPoint1 = p1 + triangle1Normal * mCollisionShapeNormalLength;
-                const Vector3 normalPoint2 = p2 + triangle1Normal * mCollisionShapeNormalLength;
-                const Vector3 normalPoint3 = p3 + triangle1Normal * mCollisionShapeNormalLength;
-                const Vector3 normalPoint4 = p4 + triangle1Normal * mCollisionShapeNormalLength;
-                mLines.add(DebugLine(p1, normalPoint1, colorShapeNormals));
-                mLines.add(DebugLine(p2, normalPoint2, colorShapeNormals));
-                mLines.add(DebugLine(p3, normalPoint3, colorShapeNormals));
-                mLines.add(DebugLine(p4, normalPoint4, colorShapeNormals));
-            }
-       }
-   }
-}
-
-// Draw the collision shape of a collider
-void DebugRenderer::drawCollisionShapeOfCollider(const Collider* collider) {
-	
-    uint32 colorShape = mMapDebugItemWithColor[DebugItem::COLLISION_SHAPE];
-    uint32 colorShapeNormals = mMapDebugItemWithColor[DebugItem::COLLISION_SHAPE_NORMAL];
-
-    switch (collider->getCollisionShape()->getName()) {
-		
-        case CollisionShapeName::BOX:
-        {
-            const BoxShape* boxShape = static_cast<const BoxShape*>(collider->getCollisionShape());
-            drawBox(collider->getLocalToWorldTransform(), boxShape, colorShape, colorShapeNormals);
-            break;
-        }
-        case CollisionShapeName::SPHERE:
-        {
-            const SphereShape* sphereShape = static_cast<const SphereShape*>(collider->getCollisionShape());
-            if (getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE)) {
-                drawSphere(collider->getLocalToWorldTransform().getPosition(), sphereShape->getRadius(), colorShape);
-            }
-            break;
-        }
-        case CollisionShapeName::CAPSULE:
-        {
-            const CapsuleShape* capsuleShape = static_cast<const CapsuleShape*>(collider->getCollisionShape());
-            if (getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE)) {
-                drawCapsule(collider->getLocalToWorldTransform(), capsuleShape->getRadius(), capsuleShape->getHeight(), colorShape);
-            }
-            break;
-        }
-        case CollisionShapeName::CONVEX_MESH:
-        {
-            const ConvexMeshShape* convexMeshShape = static_cast<const ConvexMeshShape*>(collider->getCollisionShape());
-            drawConvexMesh(collider->getLocalToWorldTransform(), convexMeshShape, colorShape, colorShapeNormals);
-            break;
-        }
-        case CollisionShapeName::TRIANGLE_MESH:
-        {
-            const ConcaveMeshShape* concaveMeshShape = static_cast<const ConcaveMeshShape*>(collider->getCollisionShape());
-            drawConcaveMeshShape(collider->getLocalToWorldTransform(), concaveMeshShape, colorShape, colorShapeNormals);
-            break;
-        }
-        case CollisionShapeName::HEIGHTFIELD:
-        {
-            const HeightFieldShape* heighFieldShape = static_cast<const HeightFieldShape*>(collider->getCollisionShape());
-            drawHeightFieldShape(collider->getLocalToWorldTransform(), heighFieldShape, colorShape, colorShapeNormals);
-            break;
-        }
-        default:
-        {
-            assert(false);
-        }
-    }
-}
-
-// Generate the rendering primitives (triangles, lines, ...) of a physics world
-void DebugRenderer::computeDebugRenderingPrimitives(const PhysicsWorld& world) {
-
-	const bool drawColliderAABB = getIsDebugItemDisplayed(DebugItem::COLLIDER_AABB);
-	const bool drawColliderBroadphaseAABB = getIsDebugItemDisplayed(DebugItem::COLLIDER_BROADPHASE_AABB);
-	const bool drawCollisionShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
-    const bool drawCollisionShapeNormals = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
-
-    const uint32 nbRigidBodies = world.getNbRigidBodies();
-
-    // For each body of the world
-    for (uint32 b = 0; b < nbRigidBodies; b++) {
-
-		// Get a body
-        const Body* body = world.getRigidBody(b);
-
-        if (body->isActive() && body->isDebugEnabled()) {
-
-            // For each collider of the body
-            for (uint32 c = 0; c < body->getNbColliders(); c++) {
-
-                // Get a collider
-                const Collider* collider = body->getCollider(c);
-
-                // If we need to draw the collider AABB
-                if (drawColliderAABB) {
-
-                    drawAABB(collider->getWorldAABB(), mMapDebugItemWithColor[DebugItem::COLLIDER_AABB]);
-                }
-
-                // If we need to draw the collider broad-phase AABB
-                if (drawColliderBroadphaseAABB) {
-
-                    if (collider->getBroadPhaseId() != -1) {
-                        drawAABB(world.mCollisionDetection.mBroadPhaseSystem.getFatAABB(collider->getBroadPhaseId()), mMapDebugItemWithColor[DebugItem::COLLIDER_BROADPHASE_AABB]);
-                    }
-                }
-
-                // If we need to draw the collision shape
-                if (drawCollisionShape || drawCollisionShapeNormals) {
-
-                    drawCollisionShapeOfCollider(collider);
-                }
-            }
-        }
-    }
-}
-
-// Called when some contacts occur
-void DebugRenderer::onContact(const CollisionCallback::CallbackData& callbackData) {
-
-	// If we need to draw contact points
-    if (getIsDebugItemDisplayed(DebugItem::CONTACT_POINT) || getIsDebugItemDisplayed(DebugItem::CONTACT_NORMAL)) {
-
-		// For each contact pair
-        for (uint32 p = 0; p < callbackData.getNbContactPairs(); p++) {
-
-			CollisionCallback::ContactPair contactPair = callbackData.getContactPair(p);
-
-            if (contactPair.getEventType() != CollisionCallback::ContactPair::EventType::ContactExit) {
-
-                // For each contact point of the contact pair
-                for (uint32 c = 0; c < contactPair.getNbContactPoints(); c++) {
-
-                    CollisionCallback::ContactPoint contactPoint = contactPair.getContactPoint(c);
-
-                    Vector3 point = contactPair.getCollider1()->getLocalToWorldTransform() * contactPoint.getLocalPointOnCollider1();
-
-                    if (getIsDebugItemDisplayed(DebugItem::CONTACT_POINT)) {
-
-                        // Contact point
-                        drawSphere(point, mContactPointSphereRadius, mMapDebugItemWithColor[DebugItem::CONTACT_POINT]);
-                    }
-
-                    if (getIsDebugItemDisplayed(DebugItem::CONTACT_NORMAL)) {
-
-                        // Contact normal
-                        mLines.add(DebugLine(point,  point + contactPoint.getWorldNormal() * mContactNormalLength, mMapDebugItemWithColor[DebugItem::CONTACT_NORMAL]));
-                    }
-                }
-            }
-		}
-	}
-}
+/********************************************************************************
+* ReactPhysics3D physics library, http://www.reactphysics3d.com                 *
+* Copyright (c) 2010-2024 Daniel Chappuis                                       *
+*********************************************************************************
+*                                                                               *
+* This software is provided 'as-is', without any express or implied warranty.   *
+* In no event will the authors be held liable for any damages arising from the  *
+* use of this software.                                                         *
+*                                                                               *
+* Permission is granted to anyone to use this software for any purpose,         *
+* including commercial applications, and to alter it and redistribute it        *
+* freely, subject to the following restrictions:                                *
+*                                                                               *
+* 1. The origin of this software must not be misrepresented; you must not claim *
+*    that you wrote the original software. If you use this software in a        *
+*    product, an acknowledgment in the product documentation would be           *
+*    appreciated but is not required.                                           *
+*                                                                               *
+* 2. Altered source versions must be plainly marked as such, and must not be    *
+*    misrepresented as being the original software.                             *
+*                                                                               *
+* 3. This notice may not be removed or altered from any source distribution.    *
+*                                                                               *
+********************************************************************************/
+
+// Libraries
+#include <reactphysics3d/utils/DebugRenderer.h>
+#include <reactphysics3d/memory/MemoryManager.h>
+#include <cassert>
+#include <reactphysics3d/collision/shapes/ConvexMeshShape.h>
+#include <reactphysics3d/collision/shapes/ConcaveMeshShape.h>
+#include <reactphysics3d/collision/shapes/HeightFieldShape.h>
+#include <reactphysics3d/collision/shapes/BoxShape.h>
+#include <reactphysics3d/collision/shapes/SphereShape.h>
+#include <reactphysics3d/collision/shapes/CapsuleShape.h>
+#include <reactphysics3d/collision/Collider.h>
+#include <reactphysics3d/engine/PhysicsWorld.h>
+#include <reactphysics3d/containers/Pair.h>
+
+using namespace reactphysics3d;
+
+// Constructor
+DebugRenderer::DebugRenderer(MemoryAllocator& allocator)
+              :mAllocator(allocator), mLines(allocator), mTriangles(allocator), mDisplayedDebugItems(0), mMapDebugItemWithColor(allocator),
+               mContactPointSphereRadius(DEFAULT_CONTACT_POINT_SPHERE_RADIUS), mContactNormalLength(DEFAULT_CONTACT_NORMAL_LENGTH),
+               mCollisionShapeNormalLength(DEFAULT_COLLISION_SHAPE_NORMAL_LENGTH) {
+
+    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::COLLIDER_AABB, static_cast<uint32>(DebugColor::MAGENTA)));
+    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::COLLIDER_BROADPHASE_AABB, static_cast<uint32>(DebugColor::YELLOW)));
+	mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::COLLISION_SHAPE, static_cast<uint32>(DebugColor::GREEN)));
+    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::CONTACT_POINT, static_cast<uint32>(DebugColor::RED)));
+    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::CONTACT_NORMAL, static_cast<uint32>(DebugColor::WHITE)));
+    mMapDebugItemWithColor.add(Pair<DebugItem, uint32>(DebugItem::COLLISION_SHAPE_NORMAL, static_cast<uint32>(DebugColor::BLUE)));
+}
+
+// Destructor
+DebugRenderer::~DebugRenderer() {
+
+}
+
+// Clear all the debugging primitives (points, lines, triangles, ...)
+void DebugRenderer::reset() {
+
+	mLines.clear();
+	mTriangles.clear();
+}
+
+// Draw an AABB
+void DebugRenderer::drawAABB(const AABB& aabb, uint32 color) {
+	
+	const Vector3& min = aabb.getMin();
+	const Vector3& max = aabb.getMax();
+
+	// Bottom edges
+	mLines.add(DebugLine(Vector3(min.x, min.y, max.z), Vector3(max.x, min.y, max.z), color));
+	mLines.add(DebugLine(Vector3(max.x, min.y, max.z),  Vector3(max.x, min.y, min.z), color));
+	mLines.add(DebugLine(Vector3(max.x, min.y, min.z), Vector3(min.x, min.y, min.z), color));
+	mLines.add(DebugLine(Vector3(min.x, min.y, min.z), Vector3(min.x, min.y, max.z), color));
+
+	// Top edges
+	mLines.add(DebugLine(Vector3(min.x, max.y, max.z), Vector3(max.x, max.y, max.z), color));
+	mLines.add(DebugLine(Vector3(max.x, max.y, max.z), Vector3(max.x, max.y, min.z), color));
+	mLines.add(DebugLine(Vector3(max.x, max.y, min.z), Vector3(min.x, max.y, min.z), color));
+	mLines.add(DebugLine(Vector3(min.x, max.y, min.z), Vector3(min.x, max.y, max.z), color));
+
+	// Side edges
+	mLines.add(DebugLine(Vector3(min.x, min.y, max.z), Vector3(min.x, max.y, max.z), color));
+	mLines.add(DebugLine(Vector3(max.x, min.y, max.z), Vector3(max.x, max.y, max.z), color));
+	mLines.add(DebugLine(Vector3(max.x, min.y, min.z), Vector3(max.x, max.y, min.z), color));
+	mLines.add(DebugLine(Vector3(min.x, min.y, min.z), Vector3(min.x, max.y, min.z), color));
+}
+
+// Draw a box
+void DebugRenderer::drawBox(const Transform& transform, const BoxShape* boxShape, uint32 colorShape, uint32 colorShapeNormals) {
+
+    const bool drawShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
+    const bool drawNormal = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
+
+    Vector3 halfExtents = boxShape->getHalfExtents();
+	Vector3 vertices[8];
+
+	// Vertices
+	vertices[0] = transform * Vector3(-halfExtents.x, -halfExtents.y, halfExtents.z);
+	vertices[1] = transform * Vector3(halfExtents.x, -halfExtents.y, halfExtents.z);
+	vertices[2] = transform * Vector3(halfExtents.x, -halfExtents.y, -halfExtents.z);
+	vertices[3] = transform * Vector3(-halfExtents.x, -halfExtents.y, -halfExtents.z);
+	vertices[4] = transform * Vector3(-halfExtents.x, halfExtents.y, halfExtents.z);
+	vertices[5] = transform * Vector3(halfExtents.x, halfExtents.y, halfExtents.z);
+	vertices[6] = transform * Vector3(halfExtents.x, halfExtents.y, -halfExtents.z);
+	vertices[7] = transform * Vector3(-halfExtents.x, halfExtents.y, -halfExtents.z);
+
+    if (drawShape) {
+
+        // Triangle faces
+        mTriangles.add(DebugTriangle(vertices[0], vertices[1], vertices[5], colorShape));
+        mTriangles.add(DebugTriangle(vertices[0], vertices[5], vertices[4], colorShape));
+        mTriangles.add(DebugTriangle(vertices[1], vertices[2], vertices[6], colorShape));
+        mTriangles.add(DebugTriangle(vertices[1], vertices[6], vertices[5], colorShape));
+        mTriangles.add(DebugTriangle(vertices[2], vertices[3], vertices[6], colorShape));
+        mTriangles.add(DebugTriangle(vertices[3], vertices[7], vertices[6], colorShape));
+        mTriangles.add(DebugTriangle(vertices[0], vertices[7], vertices[3], colorShape));
+        mTriangles.add(DebugTriangle(vertices[0], vertices[4], vertices[7], colorShape));
+        mTriangles.add(DebugTriangle(vertices[0], vertices[2], vertices[1], colorShape));
+        mTriangles.add(DebugTriangle(vertices[0], vertices[3], vertices[2], colorShape));
+        mTriangles.add(DebugTriangle(vertices[5], vertices[6], vertices[4], colorShape));
+        mTriangles.add(DebugTriangle(vertices[4], vertices[6], vertices[7], colorShape));
+    }
+
+    if (drawNormal) {
+
+        // Face normals
+        for (int f=0; f < 6; f++) {
+
+            const HalfEdgeStructure::Face& face = boxShape->getFace(f);
+            const Vector3 facePoint = 0.25 * (boxShape->getVertexPosition(face.faceVertices[0]) + boxShape->getVertexPosition(face.faceVertices[1]) +
+                         boxShape->getVertexPosition(face.faceVertices[2]) + boxShape->getVertexPosition(face.faceVertices[3]));
+            const Vector3 normalPoint = facePoint + mCollisionShapeNormalLength * boxShape->getFaceNormal(f);
+
+            mLines.add(DebugLine(transform * facePoint, transform * normalPoint, colorShapeNormals));
+        }
+    }
+
+}
+
+/// Draw a sphere
+void DebugRenderer::drawSphere(const Vector3& position, decimal radius, uint32 color) {
+
+    Vector3 vertices[(NB_SECTORS_SPHERE + 1) * (NB_STACKS_SPHERE + 1) + (NB_SECTORS_SPHERE + 1)];
+	
+	// Vertices
+    const decimal sectorStep = 2 * PI_RP3D / NB_SECTORS_SPHERE;
+    const decimal stackStep = PI_RP3D / NB_STACKS_SPHERE;
+	
+    for (uint32 i = 0; i <= NB_STACKS_SPHERE; i++) {
+
+        const decimal stackAngle = PI_RP3D / 2 - i * stackStep;
+		const decimal radiusCosStackAngle = radius * std::cos(stackAngle);
+		const decimal z = radius * std::sin(stackAngle);
+
+        for (uint32 j = 0; j <= NB_SECTORS_SPHERE; j++) {
+		
+			const decimal sectorAngle = j * sectorStep;
+			const decimal x = radiusCosStackAngle * std::cos(sectorAngle);
+			const decimal y = radiusCosStackAngle * std::sin(sectorAngle);
+
+            vertices[i * (NB_SECTORS_SPHERE + 1) + j] = position + Vector3(x, y, z);
+		}
+	}
+
+	// Faces
+    for (uint32 i = 0; i < NB_STACKS_SPHERE; i++) {
+
+        uint32 a1 = i * (NB_SECTORS_SPHERE + 1);
+        uint32 a2 = a1 + NB_SECTORS_SPHERE + 1;
+
+        for (uint32 j = 0; j < NB_SECTORS_SPHERE; j++, a1++, a2++) {
+		
+			// 2 triangles per sector except for the first and last stacks
+
+			if (i != 0) {
+			
+				mTriangles.add(DebugTriangle(vertices[a1], vertices[a2], vertices[a1 + 1], color));
+			}
+
+			if (i != (NB_STACKS_SPHERE - 1)) {
+				
+				mTriangles.add(DebugTriangle(vertices[a1 + 1], vertices[a2], vertices[a2 + 1], color));
+			}
+		}
+	}
+}
+
+// Draw a capsule
+void DebugRenderer::drawCapsule(const Transform& transform, decimal radius, decimal height, uint32 color) {
+
+    Vector3 vertices[(NB_SECTORS_SPHERE + 1) * (NB_STACKS_SPHERE + 1) + (NB_SECTORS_SPHERE + 1)];
+
+    const decimal halfHeight = decimal(0.5) * height;
+
+	// Use an even number of stacks
+    const uint32 nbStacks = NB_STACKS_SPHERE % 2 == 0 ? NB_STACKS_SPHERE : NB_STACKS_SPHERE - 1;
+    const uint32 nbHalfStacks = nbStacks / 2;
+	
+	// Vertices
+    const decimal sectorStep = 2 * PI_RP3D / NB_SECTORS_SPHERE;
+    const decimal stackStep = PI_RP3D / nbStacks;
+	
+    uint32 vertexIndex = 0;
+	
+	// Top cap sphere vertices
+    for (uint32 i = 0; i <= nbHalfStacks; i++) {
+
+        const decimal stackAngle = PI_RP3D / 2 - i * stackStep;
+		const decimal radiusCosStackAngle = radius * std::cos(stackAngle);
+        const decimal y = radius * std::sin(stackAngle);
+
+        for (uint32 j = 0; j <= NB_SECTORS_SPHERE; j++) {
+		
+			const decimal sectorAngle = j * sectorStep;
+            const decimal x = radiusCosStackAngle * std::sin(sectorAngle);
+            const decimal z = radiusCosStackAngle * std::cos(sectorAngle);
+
+            assert(vertexIndex < (NB_SECTORS_SPHERE + 1) * (nbStacks + 1) + (NB_SECTORS_SPHERE + 1));
+			vertices[vertexIndex] = transform * Vector3(x, y + halfHeight, z);
+
+			vertexIndex++;
+		}
+	}
+
+	// Bottom cap sphere vertices
+    for (uint32 i = 0; i <= nbHalfStacks; i++) {
+
+        const decimal stackAngle = PI_RP3D / 2 - (nbHalfStacks + i) * stackStep;
+		const decimal radiusCosStackAngle = radius * std::cos(stackAngle);
+        const decimal y = radius * std::sin(stackAngle);
+
+        for (uint32 j = 0; j <= NB_SECTORS_SPHERE; j++) {
+		
+			const decimal sectorAngle = j * sectorStep;
+            const decimal x = radiusCosStackAngle * std::sin(sectorAngle);
+            const decimal z = radiusCosStackAngle * std::cos(sectorAngle);
+
+            assert(vertexIndex < (NB_SECTORS_SPHERE + 1) * (nbStacks + 1) + (NB_SECTORS_SPHERE + 1));
+            vertices[vertexIndex] = transform * Vector3(x, y - halfHeight, z);
+
+			vertexIndex++;
+		}
+	}
+
+	// Faces of the top cap sphere
+    for (uint32 i = 0; i < nbHalfStacks; i++) {
+
+        uint32 a1 = i * (NB_SECTORS_SPHERE + 1);
+        uint32 a2 = a1 + NB_SECTORS_SPHERE + 1;
+
+        for (uint32 j = 0; j < NB_SECTORS_SPHERE; j++, a1++, a2++) {
+		
+			// 2 triangles per sector except for the first stack
+
+            if (i != 0) {
+
+                mTriangles.add(DebugTriangle(vertices[a1], vertices[a2], vertices[a1 + 1], color));
+            }
+
+            mTriangles.add(DebugTriangle(vertices[a1 + 1], vertices[a2], vertices[a2 + 1], color));
+        }
+	}
+
+	// Faces of the bottom cap sphere
+    for (uint32 i = 0; i < nbHalfStacks; i++) {
+
+        uint32 a1 = (nbHalfStacks + 1) * (NB_SECTORS_SPHERE + 1) + i * (NB_SECTORS_SPHERE + 1);
+        uint32 a2 = a1 + NB_SECTORS_SPHERE + 1;
+
+        for (uint32 j = 0; j < NB_SECTORS_SPHERE; j++, a1++, a2++) {
+		
+			// 2 triangles per sector except for the last stack
+
+            mTriangles.add(DebugTriangle(vertices[a1], vertices[a2], vertices[a1 + 1], color));
+
+            if (i != (nbHalfStacks - 1)) {
+
+                mTriangles.add(DebugTriangle(vertices[a1 + 1], vertices[a2], vertices[a2 + 1], color));
+            }
+        }
+	}
+
+	// Faces of the cylinder between the two spheres
+    uint32 a1 = nbHalfStacks * (NB_SECTORS_SPHERE + 1);
+    uint32 a2 = a1 + NB_SECTORS_SPHERE + 1;
+    for (uint32 i = 0; i < NB_SECTORS_SPHERE; i++, a1++, a2++) {
+
+		mTriangles.add(DebugTriangle(vertices[a1 + 1], vertices[a2], vertices[a2 + 1], color));
+		mTriangles.add(DebugTriangle(vertices[a1], vertices[a2], vertices[a1 + 1], color));
+	}
+}
+
+// Draw a convex mesh
+void DebugRenderer::drawConvexMesh(const Transform& transform, const ConvexMeshShape* convexMesh,
+                                   uint32 colorShape, uint32 colorShapeNormals) {
+
+    const bool drawShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
+    const bool drawNormal = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
+
+    // For each face of the convex mesh
+	for (uint32 f = 0; f < convexMesh->getNbFaces(); f++) {
+
+		const HalfEdgeStructure::Face& face = convexMesh->getFace(f);
+		assert(face.faceVertices.size() >= 3);
+
+        Vector3 centroid;
+
+		// Perform a fan triangulation of the convex polygon face
+        const uint32 nbFaceVertices = static_cast<uint32>(face.faceVertices.size());
+        for (uint32 v = 2; v < nbFaceVertices; v++) {
+
+            uint32 v1Index = face.faceVertices[0];
+            uint32 v2Index = face.faceVertices[v - 1];
+            uint32 v3Index = face.faceVertices[v];
+
+            Vector3 v1 = convexMesh->getVertexPosition(v1Index);
+            Vector3 v2 = convexMesh->getVertexPosition(v2Index);
+            Vector3 v3 = convexMesh->getVertexPosition(v3Index);
+
+            v1 = transform * v1;
+            v2 = transform * v2;
+            v3 = transform * v3;
+
+            if (v == 2) {
+                centroid += v1 + v2;
+            }
+
+            centroid += v3;
+
+            if (drawShape) {
+                mTriangles.add(DebugTriangle(v1, v2, v3, colorShape));
+            }
+		}
+
+        if (drawNormal) {
+
+            centroid /= nbFaceVertices;
+            const Vector3 normalPoint = centroid + transform.getOrientation() * convexMesh->getFaceNormal(f) * mCollisionShapeNormalLength;
+            mLines.add(DebugLine(centroid, normalPoint, colorShapeNormals));
+        }
+    }
+}
+
+// Draw a concave mesh shape
+void DebugRenderer::drawConcaveMeshShape(const Transform& transform, const ConcaveMeshShape* concaveMeshShape,
+                                         uint32 colorShape, uint32 colorShapeNormals) {
+
+    const bool drawShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
+    const bool drawNormal = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
+
+    if (drawShape) {
+
+        // For each triangle of the mesh
+        for (uint32 t = 0; t < concaveMeshShape->getNbTriangles(); t++) {
+
+            Vector3 v1, v2, v3;
+            concaveMeshShape->getTriangleVertices(t, v1, v2, v3);
+
+            v1 = transform * v1;
+            v2 = transform * v2;
+            v3 = transform * v3;
+
+            mTriangles.add(DebugTriangle(v1, v2, v3, colorShape));
+        }
+    }
+
+    if (drawNormal) {
+
+        // For each vertex of the mesh
+        for (uint32 v = 0; v < concaveMeshShape->getNbVertices(); v++) {
+
+            const Vector3& vertex = transform * concaveMeshShape->getVertex(v);
+            const Vector3 normalPoint = vertex + transform.getOrientation() * concaveMeshShape->getVertexNormal(v) * mCollisionShapeNormalLength;
+            mLines.add(DebugLine(vertex, normalPoint, colorShapeNormals));
+        }
+    }
+}
+
+// Draw a height field shape
+void DebugRenderer::drawHeightFieldShape(const Transform& transform, const HeightFieldShape* heightFieldShape,
+                                         uint32 colorShape, uint32 colorShapeNormals) {
+
+    const bool drawShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
+    const bool drawNormal = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
+
+    // For each sub-grid points (except the last ones one each dimension)
+    for (uint32 i = 0; i < heightFieldShape->getHeightField()->getNbColumns() - 1; i++) {
+        for (uint32 j = 0; j < heightFieldShape->getHeightField()->getNbRows() - 1; j++) {
+
+            // Compute the four point of the current quad
+            Vector3 p1 = heightFieldShape->getVertexAt(i, j);
+            Vector3 p2 = heightFieldShape->getVertexAt(i, j + 1);
+            Vector3 p3 = heightFieldShape->getVertexAt(i + 1, j);
+            Vector3 p4 = heightFieldShape->getVertexAt(i + 1, j + 1);
+
+            p1 = transform * p1;
+            p2 = transform * p2;
+            p3 = transform * p3;
+            p4 = transform * p4;
+
+            if (drawShape) {
+
+                mTriangles.add(DebugTriangle(p1, p2, p3, colorShape));
+                mTriangles.add(DebugTriangle(p3, p2, p4, colorShape));
+            }
+
+            if (drawNormal) {
+
+               // Compute the triangle normal
+               Vector3 triangle1Normal = (p2 - p1).cross(p3 - p1).getUnit();
+
+                const Vector3 normalPoint1 = p1 + triangle1Normal * mCollisionShapeNormalLength;
+                const Vector3 normalPoint2 = p2 + triangle1Normal * mCollisionShapeNormalLength;
+                const Vector3 normalPoint3 = p3 + triangle1Normal * mCollisionShapeNormalLength;
+                const Vector3 normalPoint4 = p4 + triangle1Normal * mCollisionShapeNormalLength;
+                mLines.add(DebugLine(p1, normalPoint1, colorShapeNormals));
+                mLines.add(DebugLine(p2, normalPoint2, colorShapeNormals));
+                mLines.add(DebugLine(p3, normalPoint3, colorShapeNormals));
+                mLines.add(DebugLine(p4, normalPoint4, colorShapeNormals));
+            }
+       }
+   }
+}
+
+// Draw the collision shape of a collider
+void DebugRenderer::drawCollisionShapeOfCollider(const Collider* collider) {
+	
+    uint32 colorShape = mMapDebugItemWithColor[DebugItem::COLLISION_SHAPE];
+    uint32 colorShapeNormals = mMapDebugItemWithColor[DebugItem::COLLISION_SHAPE_NORMAL];
+
+    switch (collider->getCollisionShape()->getName()) {
+		
+        case CollisionShapeName::BOX:
+        {
+            const BoxShape* boxShape = static_cast<const BoxShape*>(collider->getCollisionShape());
+            drawBox(collider->getLocalToWorldTransform(), boxShape, colorShape, colorShapeNormals);
+            break;
+        }
+        case CollisionShapeName::SPHERE:
+        {
+            const SphereShape* sphereShape = static_cast<const SphereShape*>(collider->getCollisionShape());
+            if (getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE)) {
+                drawSphere(collider->getLocalToWorldTransform().getPosition(), sphereShape->getRadius(), colorShape);
+            }
+            break;
+        }
+        case CollisionShapeName::CAPSULE:
+        {
+            const CapsuleShape* capsuleShape = static_cast<const CapsuleShape*>(collider->getCollisionShape());
+            if (getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE)) {
+                drawCapsule(collider->getLocalToWorldTransform(), capsuleShape->getRadius(), capsuleShape->getHeight(), colorShape);
+            }
+            break;
+        }
+        case CollisionShapeName::CONVEX_MESH:
+        {
+            const ConvexMeshShape* convexMeshShape = static_cast<const ConvexMeshShape*>(collider->getCollisionShape());
+            drawConvexMesh(collider->getLocalToWorldTransform(), convexMeshShape, colorShape, colorShapeNormals);
+            break;
+        }
+        case CollisionShapeName::TRIANGLE_MESH:
+        {
+            const ConcaveMeshShape* concaveMeshShape = static_cast<const ConcaveMeshShape*>(collider->getCollisionShape());
+            drawConcaveMeshShape(collider->getLocalToWorldTransform(), concaveMeshShape, colorShape, colorShapeNormals);
+            break;
+        }
+        case CollisionShapeName::HEIGHTFIELD:
+        {
+            const HeightFieldShape* heighFieldShape = static_cast<const HeightFieldShape*>(collider->getCollisionShape());
+            drawHeightFieldShape(collider->getLocalToWorldTransform(), heighFieldShape, colorShape, colorShapeNormals);
+            break;
+        }
+        default:
+        {
+            assert(false);
+        }
+    }
+}
+
+// Generate the rendering primitives (triangles, lines, ...) of a physics world
+void DebugRenderer::computeDebugRenderingPrimitives(const PhysicsWorld& world) {
+
+	const bool drawColliderAABB = getIsDebugItemDisplayed(DebugItem::COLLIDER_AABB);
+	const bool drawColliderBroadphaseAABB = getIsDebugItemDisplayed(DebugItem::COLLIDER_BROADPHASE_AABB);
+	const bool drawCollisionShape = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE);
+    const bool drawCollisionShapeNormals = getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE_NORMAL);
+
+    const uint32 nbRigidBodies = world.getNbRigidBodies();
+
+    // For each body of the world
+    for (uint32 b = 0; b < nbRigidBodies; b++) {
+
+		// Get a body
+        const Body* body = world.getRigidBody(b);
+
+        if (body->isActive() && body->isDebugEnabled()) {
+
+            // For each collider of the body
+            for (uint32 c = 0; c < body->getNbColliders(); c++) {
+
+                // Get a collider
+                const Collider* collider = body->getCollider(c);
+
+                // If we need to draw the collider AABB
+                if (drawColliderAABB) {
+
+                    drawAABB(collider->getWorldAABB(), mMapDebugItemWithColor[DebugItem::COLLIDER_AABB]);
+                }
+
+                // If we need to draw the collider broad-phase AABB
+                if (drawColliderBroadphaseAABB) {
+
+                    if (collider->getBroadPhaseId() != -1) {
+                        drawAABB(world.mCollisionDetection.mBroadPhaseSystem.getFatAABB(collider->getBroadPhaseId()), mMapDebugItemWithColor[DebugItem::COLLIDER_BROADPHASE_AABB]);
+                    }
+                }
+
+                // If we need to draw the collision shape
+                if (drawCollisionShape || drawCollisionShapeNormals) {
+
+                    drawCollisionShapeOfCollider(collider);
+                }
+            }
+        }
+    }
+}
+
+// Called when some contacts occur
+void DebugRenderer::onContact(const CollisionCallback::CallbackData& callbackData) {
+
+	// If we need to draw contact points
+    if (getIsDebugItemDisplayed(DebugItem::CONTACT_POINT) || getIsDebugItemDisplayed(DebugItem::CONTACT_NORMAL)) {
+
+		// For each contact pair
+        for (uint32 p = 0; p < callbackData.getNbContactPairs(); p++) {
+
+			CollisionCallback::ContactPair contactPair = callbackData.getContactPair(p);
+
+            if (contactPair.getEventType() != CollisionCallback::ContactPair::EventType::ContactExit) {
+
+                // For each contact point of the contact pair
+                for (uint32 c = 0; c < contactPair.getNbContactPoints(); c++) {
+
+                    CollisionCallback::ContactPoint contactPoint = contactPair.getContactPoint(c);
+
+                    Vector3 point = contactPair.getCollider1()->getLocalToWorldTransform() * contactPoint.getLocalPointOnCollider1();
+
+                    if (getIsDebugItemDisplayed(DebugItem::CONTACT_POINT)) {
+
+                        // Contact point
+                        drawSphere(point, mContactPointSphereRadius, mMapDebugItemWithColor[DebugItem::CONTACT_POINT]);
+                    }
+
+                    if (getIsDebugItemDisplayed(DebugItem::CONTACT_NORMAL)) {
+
+                        // Contact normal
+                        mLines.add(DebugLine(point,  point + contactPoint.getWorldNormal() * mContactNormalLength, mMapDebugItemWithColor[DebugItem::CONTACT_NORMAL]));
+                    }
+                }
+            }
+		}
+	}
+}
-- 
2.43.0


From 531bbee0d396723bd1da65c0622ce9bdb02cc7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:16 +0000
Subject: [PATCH 80/81] fix: parallel capsules with nearly the same axis use a
 proper separating direction

The distance between the axes was compared directly with the machine epsilon, so the normal of two
concentric parallel capsules was computed from rounding errors.
---
 src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp b/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp
index 73fa141..017dec2 100755
--- a/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp
+++ b/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp
@@ -116,7 +116,7 @@ bool CapsuleVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseI
                     Vector3 segment1ToSegment2;
 
                     // If the inner capsule segments perpendicular distance is not zero (the inner segments are not overlapping)
-                    if (segmentsPerpendicularDistance > MACHINE_EPSILON) {
+                    if (segmentsPerpendicularDistance * segmentsPerpendicularDistance > MACHINE_EPSILON) {
 
                         // Compute a perpendicular vector from segment 1 to segment 2
                         segment1ToSegment2 = (capsule2SegA - pointOnInnerSegCapsule1);
-- 
2.43.0


From f2d994546da4b31db2e541392e1e0fd88534cebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:16 +0000
Subject: [PATCH 81/81] fix: capsules pointing in opposite directions are
 clipped like parallel ones

The clipping of the inner segments assumed that both pointed in the same direction, which gave contacts
between collinear capsules a normal that does not separate them.
---
 .../narrowphase/CapsuleVsCapsuleAlgorithm.cpp       | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp b/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp
index 017dec2..8a99e7c 100755
--- a/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp
+++ b/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp
@@ -65,12 +65,12 @@ bool CapsuleVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseI
 
         // Compute the end-points of the inner segment of the second capsule
         const decimal capsule2HalfHeight = capsule2Height * decimal(0.5);
-        const Vector3 capsule2SegA(0, -capsule2HalfHeight, 0);
-        const Vector3 capsule2SegB(0, capsule2HalfHeight, 0);
+        Vector3 capsule2SegA(0, -capsule2HalfHeight, 0);
+        Vector3 capsule2SegB(0, capsule2HalfHeight, 0);
 
         // The two inner capsule segments
         const Vector3 seg1 = capsule1SegB - capsule1SegA;
-        const Vector3 seg2 = capsule2SegB - capsule2SegA;
+        Vector3 seg2 = capsule2SegB - capsule2SegA;
 
         // Compute the sum of the radius of the two capsules (virtual spheres)
         const decimal sumRadius = capsule1Radius + capsule2Radius;
@@ -79,6 +79,13 @@ bool CapsuleVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseI
         bool areCapsuleInnerSegmentsParralel = areParallelVectors(seg1, seg2);
         if (areCapsuleInnerSegmentsParralel) {
 
+            // If the two inner segments point in opposite directions, we exchange the end-points of the second
+            // one because the clipping below needs two segments that point in the same direction
+            if (seg1.dot(seg2) < decimal(0.0)) {
+                std::swap(capsule2SegA, capsule2SegB);
+                seg2 = -seg2;
+            }
+
             // If the distance between the two segments is larger than the sum of the capsules radius (we do not have overlapping)
             const decimal segmentsPerpendicularDistance = computePointToLineDistance(capsule1SegA, capsule1SegB, capsule2SegA);
             if (segmentsPerpendicularDistance >= sumRadius) {
-- 
2.43.0

