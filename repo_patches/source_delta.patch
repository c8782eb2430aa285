From a5bb9d94636ca85fa65266325226bf114de6b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 01/40] fix: Heap::push overran its list after a pop; reuse
 freed slots

---
 src/Heap.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/Heap.cpp b/src/Heap.cpp
index d2ebea6..d65e33c 100644
--- a/src/Heap.cpp
+++ b/src/Heap.cpp
@@ -44,29 +44,33 @@ namespace slsm
 
     unsigned int Heap::push(unsigned int address_, double value)
     {
+        // Index of the entry in the list.
+        unsigned int index;
+
         // Make sure the heap isn't full.
         errno = 0;
         slsm_check(heapLength < maxLength, "push: Heap is full!");
 
+        // Reuse the list slot of a popped entry, or take a new one.
+        if (heapLength < listLength) index = heap[heapLength];
+        else index = listLength++;
+
         // Add entry to the heap.
-        heap[heapLength]        = listLength;
-        address[listLength]     = address_;
-        distance[listLength]    = value;
-        backPointer[listLength] = heapLength;
+        heap[heapLength]   = index;
+        address[index]     = address_;
+        distance[index]    = value;
+        backPointer[index] = heapLength;
 
         // Increment heap size.
         heapLength++;
 
-        // Increment list size.
-        listLength++;
-
         // Sift entry down the heap.
         siftDown(0, heapLength-1);
 
         // Test heap.
         if (isTest) test();
 
-        return listLength - 1;
+        return index;
 
     error:
         exit(EXIT_FAILURE);
@@ -74,19 +78,26 @@ namespace slsm
 
     void Heap::pop(unsigned int& address_, double& value)
     {
+        // Index of the entry in the list.
+        unsigned int index;
+
         // Make sure the heap isn't empty.
         errno = 0;
         slsm_check(heapLength != 0, "pop: Heap is empty!");
 
         // Remove entry from heap.
-        address_                = address[heap[0]];
-        value                   = distance[heap[0]];
+        index                   = heap[0];
+        address_                = address[index];
+        value                   = distance[index];
         heap[0]                 = heap[heapLength-1];
         backPointer[heap[0]]    = 0;
 
         // Decrement heap size.
         heapLength--;
 
+        // Keep the freed list slot for the next push.
+        heap[heapLength]        = index;
+
         // Sift new heap head up.
         siftUp(0);
 
-- 
2.43.0


From 391a61f571cf77e8337b659687ab0faa2ce5ce4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 02/40] fix: fast marching mixed second-order neighbours from
 opposite directions

---
 src/FastMarchingMethod.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 049bf73..3a2fe87 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -466,6 +466,9 @@ namespace slsm
                             // Store distance.
                             dist1 = (*signedDistance)[n1];
 
+                            // Discard any second neighbour in the opposite direction.
+                            dist2 = maxDouble;
+
                             // Second neighbour in same direction.
                             unsigned int n2 = mesh.nodes[n1].neighbours[index];
 
-- 
2.43.0


From 3c0910bfa4fb1cfaa82163c42a400983664d5c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 03/40] fix: fast marching kept the input value where the
 quadratic has no real root

---
 src/FastMarchingMethod.cpp | 22 ++++++++++++++++++----
 src/FastMarchingMethod.h   |  5 ++++-
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 3a2fe87..383cb71 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -438,6 +438,12 @@ namespace slsm
 
         double dist1, dist2;
 
+        // The closest solution using a single dimension.
+        double closest = maxDouble;
+
+        // Direction of increasing distance from the zero contour.
+        const int sign = (signedDistanceCopy[node] > 0) ? 1 : -1;
+
         // Loop over all dimensions.
         for (unsigned int i=0;i<2;i++)
         {
@@ -499,6 +505,9 @@ namespace slsm
                 a += aa;
                 b -= 2*aa*tp;
                 c += aa*tp*tp;
+
+                double d = tp + sign*2*oneThird;
+                if (std::abs(d) < std::abs(closest)) closest = d;
             }
             // First order finite difference.
             else if (dist1 < maxDouble)
@@ -506,13 +515,16 @@ namespace slsm
                 a += 1;
                 b -= 2*dist1;
                 c += dist1*dist1;
+
+                double d = dist1 + sign;
+                if (std::abs(d) < std::abs(closest)) closest = d;
             }
         }
 
         // Update coefficient.
         c -= 1;
 
-        return solveQuadratic(node, a, b, c);
+        return solveQuadratic(node, a, b, c, closest);
     }
 
     void FastMarchingMethod::finaliseVelocity(unsigned int node)
@@ -593,7 +605,8 @@ namespace slsm
         exit(EXIT_FAILURE);
     }
 
-    double FastMarchingMethod::solveQuadratic(unsigned int node, const double& a, const double& b, const double& c) const
+    double FastMarchingMethod::solveQuadratic(unsigned int node, const double& a, const double& b,
+        const double& c, const double& closest) const
     {
         // Initialise roots.
         double r0, r1;
@@ -607,8 +620,9 @@ namespace slsm
             r0 = (-b + sqrt(discrim)) / (2.0 * a);
             r1 = (-b - sqrt(discrim)) / (2.0 * a);
         }
-        // Use previous estimate.
-        else return (*signedDistance)[node];
+        // There is no two-dimensional solution, i.e. the zero contour is too far
+        // away in one of the dimensions. Only use the closest one.
+        else return closest;
 
         if (signedDistanceCopy[node] > doubleEpsilon) return r0;
         else return r1;
diff --git a/src/FastMarchingMethod.h b/src/FastMarchingMethod.h
index e5d38b2..8787d4f 100644
--- a/src/FastMarchingMethod.h
+++ b/src/FastMarchingMethod.h
@@ -165,10 +165,13 @@ namespace slsm
             \param c
                 The third quadratic coefficient.
 
+            \param closest
+                The value to use when the equation has no real solution.
+
             \return
                 The correct root of the equation.
          */
-        double solveQuadratic(unsigned int, const double&, const double&, const double&) const;
+        double solveQuadratic(unsigned int, const double&, const double&, const double&, const double&) const;
 
         const double doubleEpsilon = std::numeric_limits<double>::epsilon();
         const double maxDouble = std::numeric_limits<double>::max();
-- 
2.43.0


From fdad4aa2a89fdd2c3eb470958128c9db13ca854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 04/40] fix: fast marching flipped the side of nodes with a
 tiny positive value

---
 src/FastMarchingMethod.cpp | 2 +-
 src/FastMarchingMethod.h   | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 383cb71..63ed3d6 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -624,7 +624,7 @@ namespace slsm
         // away in one of the dimensions. Only use the closest one.
         else return closest;
 
-        if (signedDistanceCopy[node] > doubleEpsilon) return r0;
+        if (signedDistanceCopy[node] > 0) return r0;
         else return r1;
     }
 }
diff --git a/src/FastMarchingMethod.h b/src/FastMarchingMethod.h
index 8787d4f..2384d9e 100644
--- a/src/FastMarchingMethod.h
+++ b/src/FastMarchingMethod.h
@@ -173,7 +173,6 @@ namespace slsm
          */
         double solveQuadratic(unsigned int, const double&, const double&, const double&, const double&) const;
 
-        const double doubleEpsilon = std::numeric_limits<double>::epsilon();
         const double maxDouble = std::numeric_limits<double>::max();
     };
 }
-- 
2.43.0


From 7c50fa3e37cc23c93effe65379c2e7f2adf26484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 05/40] fix: nodes that left the edge of the narrow band kept
 their mine flag

---
 src/LevelSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index f61f8bb..4cd2c41 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -651,6 +651,9 @@ namespace slsm
             // Flag node as inactive.
             mesh.nodes[i].isActive = false;
 
+            // Flag node as not being a mine.
+            mesh.nodes[i].isMine = false;
+
             /* Check that the node isn't in a masked region. If it's not, then check
                whether it lies on the domain boundary, and if it does then check that
                the boundary isn't fixed.
-- 
2.43.0


From b9ba0ede262a03fe22c20776225b1dcb65cab855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 06/40] fix: point-in-polygon test truncated the side of a node
 to an integer

---
 src/LevelSet.cpp | 2 +-
 src/LevelSet.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 4cd2c41..3568b1a 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -1335,7 +1335,7 @@ namespace slsm
         else return true;
     }
 
-    int LevelSet::isLeftOfLine(const Coord& vertex1, const Coord& vertex2, const Coord& point) const
+    double LevelSet::isLeftOfLine(const Coord& vertex1, const Coord& vertex2, const Coord& point) const
     {
         return ((vertex2.x - vertex1.x) * (point.y - vertex1.y)
             - (point.x -  vertex1.x) * (vertex2.y - vertex1.y));
diff --git a/src/LevelSet.h b/src/LevelSet.h
index 38a5d82..3bd73d8 100644
--- a/src/LevelSet.h
+++ b/src/LevelSet.h
@@ -394,7 +394,7 @@ namespace slsm
                 = 0 if the point is on the line,
                 < 0 if right of the line.
          */
-        int isLeftOfLine(const Coord&, const Coord&, const Coord&) const;
+        double isLeftOfLine(const Coord&, const Coord&, const Coord&) const;
 
         //! Calculate the material area for an element cut by the boundary.
         /*! \param element
-- 
2.43.0


From bf5a6cac229052a90be57efac6541ea3a33d8a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 07/40] fix: overran the segment lookup of boundary points
 where more than two segments meet

---
 src/Boundary.cpp | 31 ++++++++++++++++---------------
 src/Boundary.h   | 14 +++++++++++++-
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 372c46d..b1b90e2 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -888,21 +888,22 @@ namespace slsm
             points[segments[i].start].length += 0.5 * segments[i].length;
             points[segments[i].end].length += 0.5 * segments[i].length;
 
-            // Update point to segment lookup for start point.
-            points[segments[i].start].segments[points[segments[i].start].nSegments] = i;
-            points[segments[i].start].nSegments++;
-
-            // Update point to segment lookup for end point.
-            points[segments[i].end].segments[points[segments[i].end].nSegments] = i;
-            points[segments[i].end].nSegments++;
-
-            // Update nearest neighbours for the start point.
-            points[segments[i].start].neighbours[points[segments[i].start].nNeighbours] = segments[i].end;
-            points[segments[i].start].nNeighbours++;
-
-            // Update nearest neighbours for the end point.
-            points[segments[i].end].neighbours[points[segments[i].end].nNeighbours] = segments[i].start;
-            points[segments[i].end].nNeighbours++;
+            // Update point to segment and nearest neighbour lookup for each point.
+            connectPoint(points[segments[i].start], i, segments[i].end);
+            connectPoint(points[segments[i].end], i, segments[i].start);
         }
     }
+
+    void Boundary::connectPoint(BoundaryPoint& point, const unsigned int segment, const unsigned int neighbour)
+    {
+        // Most points belong to two segments, but more segments can meet
+        // at a point that lies exactly on top of a mesh node.
+        if (point.nSegments == point.segments.size()) point.segments.push_back(segment);
+        else point.segments[point.nSegments] = segment;
+        point.nSegments++;
+
+        if (point.nNeighbours == point.neighbours.size()) point.neighbours.push_back(neighbour);
+        else point.neighbours[point.nNeighbours] = neighbour;
+        point.nNeighbours++;
+    }
 }
diff --git a/src/Boundary.h b/src/Boundary.h
index 7e2f770..d8a8ec7 100644
--- a/src/Boundary.h
+++ b/src/Boundary.h
@@ -51,7 +51,7 @@ namespace slsm
         bool isDomain;                          //!< Whether the point lies close to the domain boundary.
         bool isFixed;                           //!< Whether the point is fixed.
         unsigned int nSegments;                 //!< The number of boundary segments that a point belongs to.
-        std::vector<unsigned int> segments;     //!< The indices of the two segments to which a point belongs.
+        std::vector<unsigned int> segments;     //!< The indices of the segments to which a point belongs (usually two).
         unsigned int nNeighbours;               //!< The number of neighbouring boundary points.
         std::vector<unsigned int> neighbours;   //!< The indices of the neighbouring points.
         std::vector<double> sensitivities;      //!< Objective and constraint sensitivities.
@@ -189,6 +189,18 @@ namespace slsm
 
         //! Compute the (potentially weighted) integral length for each boundary point.
         void computePointLengths();
+
+        //! Add a segment, and the point at its far end, to the lookup of a boundary point.
+        /*! \param point
+                A reference to the boundary point.
+
+            \param segment
+                The index of the boundary segment.
+
+            \param neighbour
+                The index of the point at the other end of the segment.
+         */
+        void connectPoint(BoundaryPoint&, const unsigned int, const unsigned int);
     };
 }
 
-- 
2.43.0


From 30477df3250c9d493002b19606f4c6a74a22b0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 08/40] fix: discretise drew a segment between unset points
 where an element's cut edges are all inactive

---
 src/Boundary.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index b1b90e2..f7377c3 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -440,25 +440,32 @@ namespace slsm
                 }
 
                 // If no edges are cut and element is not inside structure
-                // then the boundary segment must cross the diagonal.
+                // then the boundary segment must cross the diagonal, unless
+                // the cut edges are outside of the narrow band.
                 else if ((nCut == 0) && (levelSet.mesh.elements[i].status != ElementStatus::INSIDE))
                 {
                     // Node index.
                     unsigned int node;
 
-                    // Find the two boundary nodes.
-                    for (unsigned int j=0;j<4;j++)
+                    // Find the two boundary nodes on opposite corners.
+                    for (unsigned int j=0;j<2;j++)
                     {
-                        // Node index.
-                        node = levelSet.mesh.elements[i].nodes[j];
+                        // Node indices.
+                        unsigned int n1 = levelSet.mesh.elements[i].nodes[j];
+                        unsigned int n2 = levelSet.mesh.elements[i].nodes[j+2];
 
-                        if (levelSet.mesh.nodes[node].status & NodeStatus::BOUNDARY)
+                        if ((levelSet.mesh.nodes[n1].status & NodeStatus::BOUNDARY) &&
+                            (levelSet.mesh.nodes[n2].status & NodeStatus::BOUNDARY))
                         {
-                            boundaryPoints[nCut] = node;
-                            nCut++;
+                            boundaryPoints[0] = n1;
+                            boundaryPoints[1] = n2;
+                            nCut = 2;
                         }
                     }
 
+                    // The boundary doesn't cross the diagonal.
+                    if (nCut == 0) continue;
+
                     // Create boundary segment.
                     BoundarySegment segment;
                     segment.element = i;
-- 
2.43.0


From 7b5cf28426ee64e1e9678792190d9d76cb9c095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 09/40] fix: saddle element with a zero centre value got
 segments on one side and area of the other

---
 src/Boundary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index f7377c3..8c7133f 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -357,7 +357,7 @@ namespace slsm
                     NodeStatus::NodeStatus status = levelSet.mesh.nodes[node].status;
 
                     if (((status & NodeStatus::INSIDE) && (lsfSum > 0))  ||
-                        ((status & NodeStatus::OUTSIDE) && (lsfSum < 0)))
+                        ((status & NodeStatus::OUTSIDE) && (lsfSum <= 0)))
                     {
                         segment.start = boundaryPoints[0];
                         segment.end = boundaryPoints[1];
-- 
2.43.0


From 9e7d1f46db993580ab0236fdada90d74a4b03166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 10/40] fix: mapped velocities of nodes outside the narrow band
 were never normalised

---
 src/LevelSet.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 3568b1a..f2d465c 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -787,11 +787,11 @@ namespace slsm
             }
         }
 
-        // Compute interpolated velocity.
-        for (unsigned int i=0;i<nNarrowBand;i++)
+        // Compute interpolated velocity. Nodes outside of the narrow band, e.g. on a
+        // fixed domain boundary or in a masked region, are also used by the extension.
+        for (unsigned int i=0;i<mesh.nNodes;i++)
         {
-            unsigned int node = narrowBand[i];
-            if (velocity[node]) velocity[node] /= weight[node];
+            if (weight[i] > 0) velocity[i] /= weight[i];
         }
     }
 
-- 
2.43.0


From 03887aac1748814c23276681f905d9937151b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 11/40] fix: velocity mapping overflowed the stack on large
 meshes

---
 src/Boundary.cpp |  8 +++-----
 src/LevelSet.cpp | 13 ++++---------
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 8c7133f..327da50 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -547,16 +547,14 @@ namespace slsm
     void Boundary::computeNormalVectors(const LevelSet& levelSet)
     {
         // Whether the normal vector at a boundary point has been set.
-        bool isSet[nPoints];
+        std::vector<bool> isSet(nPoints, false);
 
         // Weighting factor for each point.
-        double weight[nPoints];
+        std::vector<double> weight(nPoints, 0);
 
-        // Initialise arrays.
+        // Initialise normal vectors.
         for (unsigned int i=0;i<nPoints;i++)
         {
-            isSet[i] = false;
-            weight[i] = 0;
             points[i].normal.x = 0;
             points[i].normal.y = 0;
         }
diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index f2d465c..93c26a0 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -706,18 +706,13 @@ namespace slsm
         // using inverse squared distance interpolation.
 
         // Whether the velocity at a node has been set.
-        bool isSet[mesh.nNodes];
+        std::vector<bool> isSet(mesh.nNodes, false);
 
         // Weighting factor for each node.
-        double weight[mesh.nNodes];
+        std::vector<double> weight(mesh.nNodes, 0);
 
-        // Initialise arrays.
-        for (unsigned int i=0;i<mesh.nNodes;i++)
-        {
-            isSet[i] = false;
-            weight[i] = 0;
-            velocity[i] = 0;
-        }
+        // Initialise velocities.
+        std::fill(velocity.begin(), velocity.end(), 0.0);
 
         // Loop over all boundary points.
         for (unsigned int i=0;i<boundaryPoints.size();i++)
-- 
2.43.0


From 18a982e4c9a889981e489ce2b71e4e132d971ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 12/40] fix: boundary normals were NaN next to nodes with a
 zero gradient

---
 src/Boundary.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 327da50..2dbd3a4 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -630,6 +630,9 @@ namespace slsm
                 // Absolute gradient.
                 double grad = sqrt(gradX*gradX + gradY*gradY);
 
+                // The node has no normal vector, e.g. midway between two boundaries.
+                if (grad == 0) continue;
+
                 // Compute the two normal vector components.
                 double xNormal = gradX / grad;
                 double yNormal = gradY / grad;
@@ -674,7 +677,7 @@ namespace slsm
         // Compute interpolated normal vector.
         for (unsigned int i=0;i<nPoints;i++)
         {
-            if (!points[i].isDomain)
+            if (!points[i].isDomain && (weight[i] > 0))
             {
                 points[i].normal.x /= weight[i];
                 points[i].normal.y /= weight[i];
@@ -683,8 +686,12 @@ namespace slsm
                 double norm = sqrt(points[i].normal.x*points[i].normal.x
                             + points[i].normal.y*points[i].normal.y);
 
-                points[i].normal.x /= norm;
-                points[i].normal.y /= norm;
+                // Normalise, unless the contributions from opposite sides cancel.
+                if (norm > 0)
+                {
+                    points[i].normal.x /= norm;
+                    points[i].normal.y /= norm;
+                }
             }
         }
     }
-- 
2.43.0


From f119b80a208209e09523be1d34997bd5e094c525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 13/40] fix: a fast marching object could only be used once

---
 src/FastMarchingMethod.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 63ed3d6..4416161 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -110,6 +110,9 @@ namespace slsm
             // Make sure node isn't masked.
             if (nodeStatus[i] != FMM_NodeStatus::MASKED)
             {
+                // Reset the status from any previous march.
+                nodeStatus[i] = FMM_NodeStatus::NONE;
+
                 // Zero contour passes through node.
                 if (signedDistanceCopy[i] == 0)
                 {
@@ -212,6 +215,8 @@ namespace slsm
                 maxHeapSize++;
         }
 
+        // Replace the heap from any previous march.
+        delete heap;
         heap = new Heap(maxHeapSize, isTest);
     }
 
-- 
2.43.0


From abff03b9365ca8626a8bf871c9f73c432e906809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 14/40] fix: element segment lookup was too small for elements
 whose edges all lie on the boundary

---
 src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 88b1845..5e5ea45 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -29,7 +29,7 @@ namespace slsm
     Element::Element() :
         area(0),
         nodes(4, 0),
-        boundarySegments(2, 0)
+        boundarySegments(4, 0)
     {
     }
 
-- 
2.43.0


From 836229f358878f00efa4d21da3733b5652182767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 15/40] fix: gradients on meshes with fewer than four elements
 read outside the mesh

---
 src/LevelSet.cpp | 40 ++++++++++++++++++++++++++++++++++++++++
 src/LevelSet.h   | 16 ++++++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 93c26a0..a24932f 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -882,6 +882,10 @@ namespace slsm
             // Upwind direction.
             int sign = velocity[node] < 0 ? -1 : 1;
 
+            // The mesh is too small to hold the stencils below.
+            if ((mesh.width < 4) || (mesh.height < 4))
+                return computeSmallMeshGradient(x, y, sign);
+
             // Derivatives to right.
 
             // Node on left-hand edge.
@@ -1192,6 +1196,42 @@ namespace slsm
         return grad;
     }
 
+    double LevelSet::computeSmallMeshGradient(const int x, const int y, const int sign) const
+    {
+        // One-sided stencils to the right, left, above, and below the node.
+        double v[4][5];
+
+        for (int i=0;i<5;i++)
+        {
+            // Indices of the differences in each stencil. Those outside of the
+            // domain are approximated by the nearest difference inside.
+            int right = std::max(0, std::min(x+2-i, int(mesh.width)-1));
+            int left  = std::max(0, std::min(x-3+i, int(mesh.width)-1));
+            int up    = std::max(0, std::min(y+2-i, int(mesh.height)-1));
+            int down  = std::max(0, std::min(y-3+i, int(mesh.height)-1));
+
+            v[0][i] = signedDistance[mesh.xyToIndex[right+1][y]] - signedDistance[mesh.xyToIndex[right][y]];
+            v[1][i] = signedDistance[mesh.xyToIndex[left+1][y]]  - signedDistance[mesh.xyToIndex[left][y]];
+            v[2][i] = signedDistance[mesh.xyToIndex[x][up+1]]    - signedDistance[mesh.xyToIndex[x][up]];
+            v[3][i] = signedDistance[mesh.xyToIndex[x][down+1]]  - signedDistance[mesh.xyToIndex[x][down]];
+        }
+
+        double gradRight = sign * gradHJWENO(v[0][0], v[0][1], v[0][2], v[0][3], v[0][4]);
+        double gradLeft  = sign * gradHJWENO(v[1][0], v[1][1], v[1][2], v[1][3], v[1][4]);
+        double gradUp    = sign * gradHJWENO(v[2][0], v[2][1], v[2][2], v[2][3], v[2][4]);
+        double gradDown  = sign * gradHJWENO(v[3][0], v[3][1], v[3][2], v[3][3], v[3][4]);
+
+        // Compute gradient using upwind scheme.
+        double grad = 0;
+
+        if (gradDown > 0)   grad += gradDown * gradDown;
+        if (gradLeft > 0)   grad += gradLeft * gradLeft;
+        if (gradUp < 0)     grad += gradUp * gradUp;
+        if (gradRight < 0)  grad += gradRight * gradRight;
+
+        return sqrt(grad);
+    }
+
     double LevelSet::gradHJWENO(double v1, double v2, double v3, double v4, double v5) const
     {
         // Calculate the gradient using the 5th order Hamilton-Jacobi WENO approximation.
diff --git a/src/LevelSet.h b/src/LevelSet.h
index 3bd73d8..047cc4a 100644
--- a/src/LevelSet.h
+++ b/src/LevelSet.h
@@ -331,6 +331,22 @@ namespace slsm
          */
         double computeGradient(const unsigned int) const;
 
+        //! Compute the modulus of the gradient on meshes with fewer than four
+        //! elements in either direction.
+        /*! \param x
+                The x coordinate of the node.
+
+            \param y
+                The y coordinate of the node.
+
+            \param sign
+                The sign of the velocity at the node.
+
+            \return
+                The gradient.
+         */
+        double computeSmallMeshGradient(const int, const int, const int) const;
+
         //! Compute Hamilton-Jacobi WENO gradient approximation.
         /*! \param v1
                 The value of the function at the first stencil point.
-- 
2.43.0


From eb32d148b0a637030d0a9dbad27fca9af47ac6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 16/40] fix: re-seeding kept the normal draw cached from the
 previous seed

---
 src/MersenneTwister.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MersenneTwister.h b/src/MersenneTwister.h
index 7fadc83..04a1caa 100644
--- a/src/MersenneTwister.h
+++ b/src/MersenneTwister.h
@@ -120,6 +120,10 @@ namespace slsm
         {
             seed = seed_;
             generator.seed(seed);
+
+            // Discard any value cached by the distributions.
+            default_uniform_real_distribution.reset();
+            default_normal_distribution.reset();
         }
 
     private:
-- 
2.43.0


From 4ca595cf6fca0d03f2fc4ae2f4f33717f10a5c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 17/40] fix: normals of boundary points on the domain edge were
 never normalised

---
 src/Boundary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 2dbd3a4..9deb04c 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -677,7 +677,7 @@ namespace slsm
         // Compute interpolated normal vector.
         for (unsigned int i=0;i<nPoints;i++)
         {
-            if (!points[i].isDomain && (weight[i] > 0))
+            if (weight[i] > 0)
             {
                 points[i].normal.x /= weight[i];
                 points[i].normal.y /= weight[i];
-- 
2.43.0


From 10a81efccf0a09755a33effe50b2f20576a24666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 18/40] fix: numbered VTK files never held the requested
 velocity and gradient fields

The datapoint overload of saveLevelSetVTK dropped both flags.
---
 src/InputOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 27a77ae..927d91e 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -45,7 +45,7 @@ namespace slsm
         if (!outputDirectory.empty()) fileName << outputDirectory << "/";
         fileName << "level-set_" << num.str() << ".vtk";
 
-        saveLevelSetVTK(fileName.str(), levelSet);
+        saveLevelSetVTK(fileName.str(), levelSet, isVelocity, isGradient);
     }
 
     void InputOutput::saveLevelSetVTK(const std::string& fileName,
-- 
2.43.0


From a5e0842e933e8c46ee802c80c51fd0d3eb64c71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 19/40] fix: malformed level set text files were accepted and
 could be read past the mesh

Only the number of lines was checked: values were read token by token into
unchecked positions, and reading stopped silently at the first bad token.
---
 src/InputOutput.cpp | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 927d91e..cac43c0 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -202,6 +202,10 @@ namespace slsm
         unsigned int nLines = 0;
         std::string line;
         std::ifstream inputFile(fileName.c_str());
+        std::vector<double> signedDistance(levelSet.mesh.nNodes);
+
+        // The column that holds the signed distance.
+        const unsigned int signedDistanceColumn = isXY ? 2 : 0;
 
         // Check file is valid.
         errno = ENOENT;
@@ -217,28 +221,37 @@ namespace slsm
         inputFile.clear();
         inputFile.seekg(0, std::ios::beg);
 
-        // Read the nodal signed distance fom file.
-
-        // File contains additional nodal coordinate information.
-        if (isXY)
+        // Read the nodal signed distance fom file. Lines hold the signed distance,
+        // velocity, and gradient, following the nodal coordinates (when present).
+        for (unsigned int i=0;i<levelSet.mesh.nNodes;i++)
         {
-            double tmp;
-            unsigned int node = 0;
+            double value;
+            unsigned int nValues = 0;
+            std::string token;
 
-            while (inputFile >> tmp >> tmp >> levelSet.signedDistance[node] >> tmp >> tmp)
-                node++;
-        }
+            std::getline(inputFile, line);
+            std::istringstream values(line);
 
-        // File only contains signed distance data.
-        else
-        {
-            double tmp;
-            unsigned int node = 0;
+            while (values >> token)
+            {
+                // Make sure that the whole token is a decimal number.
+                char* end;
+                value = strtod(token.c_str(), &end);
+
+                errno = EINVAL;
+                slsm_check(end == token.c_str() + token.size() && token.find_first_of("xX") == std::string::npos,
+                    "Input file contains an invalid number!");
 
-            while (inputFile >> levelSet.signedDistance[node] >> tmp >> tmp)
-                node++;
+                if (nValues == signedDistanceColumn) signedDistance[i] = value;
+                nValues++;
+            }
+
+            errno = EINVAL;
+            slsm_check(nValues == signedDistanceColumn + 3, "Input file has the wrong layout!");
         }
 
+        levelSet.signedDistance = signedDistance;
+
         return;
 
     error:
-- 
2.43.0


From 0a4046fba852e4b4835dff2c332323d94dc23d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 20/40] fix: binary level set files of the wrong size were
 accepted

A truncated file left the remaining nodes unchanged, an over-long one was cut.
---
 src/InputOutput.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index cac43c0..6289897 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -279,13 +279,20 @@ namespace slsm
         LevelSet& levelSet) const
     {
         std::ifstream inputFile(fileName.c_str(), std::ios::in | std::ios::binary);
+        std::vector<double> signedDistance(levelSet.mesh.nNodes);
 
         // Check file is valid.
         errno = ENOENT;
         slsm_check(inputFile.good(), "Cannot open file %s", fileName.c_str());
 
         // Read the nodal signed distance fom file.
-        inputFile.read((char*)&levelSet.signedDistance[0], levelSet.mesh.nNodes*sizeof(double));
+        inputFile.read((char*)&signedDistance[0], levelSet.mesh.nNodes*sizeof(double));
+
+        // Make sure that the file holds exactly one value per node.
+        errno = EFBIG;
+        slsm_check(inputFile.good() && inputFile.peek() == EOF, "Input file contains incorrect number of nodes!");
+
+        levelSet.signedDistance = signedDistance;
 
         return;
 
-- 
2.43.0


From db5c93880a2bc9ec6d33a0071e010334e275d76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 21/40] fix: failed writes were not noticed when saving

A full disk or a file size limit left a short file behind without any error.
---
 src/InputOutput.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 6289897..3ec0334 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -29,6 +29,14 @@
 
 namespace slsm
 {
+    // Close a file and report whether everything was written to it.
+    static bool closeFile(FILE* pFile)
+    {
+        bool isGood = !ferror(pFile);
+
+        return (fclose(pFile) == 0) && isGood;
+    }
+
     InputOutput::InputOutput() {}
 
     void InputOutput::saveLevelSetVTK(const unsigned int& datapoint, const LevelSet& levelSet,
@@ -95,7 +103,8 @@ namespace slsm
                 fprintf(pFile, "%lf\n", levelSet.gradient[i]);
         }
 
-        fclose(pFile);
+        errno = EIO;
+        slsm_check(closeFile(pFile), "Cannot write file %s", fileName.c_str());
 
         return;
 
@@ -137,7 +146,8 @@ namespace slsm
             fprintf(pFile, "%lf %lf %lf\n", levelSet.signedDistance[i], levelSet.velocity[i], levelSet.gradient[i]);
         }
 
-        fclose(pFile);
+        errno = EIO;
+        slsm_check(closeFile(pFile), "Cannot write file %s", fileName.c_str());
 
         return;
 
@@ -172,6 +182,10 @@ namespace slsm
         slsm_check(outputFile.good(), "Cannot open file %s", fileName.c_str());
 
         outputFile.write((char*)&levelSet.signedDistance[0], levelSet.mesh.nNodes*sizeof(double));
+        outputFile.close();
+
+        errno = EIO;
+        slsm_check(outputFile.good(), "Cannot write file %s", fileName.c_str());
 
         return;
 
@@ -332,7 +346,8 @@ namespace slsm
             fprintf(pFile, "%lf %lf %lf\n",
                 boundary.points[i].coord.x, boundary.points[i].coord.y, boundary.points[i].length);
 
-        fclose(pFile);
+        errno = EIO;
+        slsm_check(closeFile(pFile), "Cannot write file %s", fileName.c_str());
 
         return;
 
@@ -391,7 +406,8 @@ namespace slsm
             fprintf(pFile, "%lf %lf\n\n", x, y);
         }
 
-        fclose(pFile);
+        errno = EIO;
+        slsm_check(closeFile(pFile), "Cannot write file %s", fileName.c_str());
 
         return;
 
@@ -444,7 +460,8 @@ namespace slsm
         for (unsigned int i=0;i<mesh.nElements;i++)
             fprintf(pFile, "%lf\n", mesh.elements[i].area);
 
-        fclose(pFile);
+        errno = EIO;
+        slsm_check(closeFile(pFile), "Cannot write file %s", fileName.c_str());
 
         return;
 
@@ -485,7 +502,8 @@ namespace slsm
             fprintf(pFile, "%lf\n", mesh.elements[i].area);
         }
 
-        fclose(pFile);
+        errno = EIO;
+        slsm_check(closeFile(pFile), "Cannot write file %s", fileName.c_str());
 
         return;
 
-- 
2.43.0


From 8a3bf12a8e419edba4cfff392ac0931f303321a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 22/40] fix: optimiser gradients were stored at the original
 constraint index

With inactive constraints the gradient vector only has entries for the
active functions, so values ended up in the wrong place or past its end.
---
 src/Optimise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index eb1a653..c75ac09 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -711,7 +711,7 @@ namespace slsm
                     // Scale factor.
                     double scaleFactor = scaleFactors[index] * scaleFactors[j];
 
-                    gradient[k] += (boundaryPoints[i].sensitivities[indexMap[index]]
+                    gradient[j] += (boundaryPoints[i].sensitivities[indexMap[index]]
                                  *  boundaryPoints[i].sensitivities[k]
                                  *  boundaryPoints[i].length
                                  *  scaleFactor);
-- 
2.43.0


From 9c2db145de054ca1904a6b46b6da2c68c504d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 23/40] fix: lambdas of dropped constraints kept values of
 other constraints

The remapping loop also read one entry past the end of the index map.
---
 src/Optimise.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index c75ac09..fffbe65 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -280,17 +280,14 @@ namespace slsm
         // Remap data if there are inactive constraints.
         if (nConstraints < nConstraintsInitial)
         {
-            // Return the lambda vector to its original size.
-            lambdas.resize(1 + nConstraintsInitial);
+            // Return the lambda vector to its original size, with zeros for
+            // the inactive constraints.
+            std::vector<double> activeLambdas(lambdas);
+            lambdas.assign(1 + nConstraintsInitial, 0.0);
 
-            // Check for constraints.
-            if (nConstraints > 0)
-            {
-                // Copy the lambda values back into position.
-                // Loop backwards to avoid overwriting data.
-                for (unsigned int i=nConstraints+1;i>0;i--)
-                    lambdas[indexMap[i]] = lambdas[i];
-            }
+            // Copy the lambda values back into position.
+            for (unsigned int i=0;i<nConstraints+1;i++)
+                lambdas[indexMap[i]] = activeLambdas[i];
         }
 
         // Return the unscaled objective change.
-- 
2.43.0


From d2f8660f0846b0c1ea393b02f04c0dfaab13346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 24/40] fix: solving again used what the previous solve left
 behind

Constraints dropped by one solve stayed dropped (and shifted the others) in
the next, relaxed constraint targets were kept, and points that had become
fixed kept their old displacement.
---
 src/Optimise.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index fffbe65..b4be3b7 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -150,7 +150,12 @@ namespace slsm
         nPoints = boundaryPoints.size();
 
         // Resize boundary point dependent data structures.
-        displacements.resize(nPoints);
+        displacements.assign(nPoints, 0.0);
+
+        // Store the full set of constraints, since inactive ones are removed below.
+        const std::vector<double> constraintDistancesInitial(constraintDistances);
+        const std::vector<bool> isEqualityInitial(isEquality);
+        constraintDistancesScaled = constraintDistances;
 
         // Initialise the index map.
         indexMap.resize(nConstraints + 1);
@@ -290,8 +295,18 @@ namespace slsm
                 lambdas[indexMap[i]] = activeLambdas[i];
         }
 
-        // Return the unscaled objective change.
-        return (optObjective / scaleFactors[0]);
+        // Unscaled objective change.
+        optObjective /= scaleFactors[0];
+
+        // Restore the full set of constraints for the next call.
+        nConstraints = nConstraintsInitial;
+        constraintDistances = constraintDistancesInitial;
+        isEquality = isEqualityInitial;
+        scaleFactors.resize(nConstraints + 1);
+        negativeLambdaLimits.resize(nConstraints + 1);
+        positiveLambdaLimits.resize(nConstraints + 1);
+
+        return optObjective;
     }
 
     void Optimise::computeScaleFactors()
-- 
2.43.0


From 7b558d52bdb2f29c8b15bb3b7b7fa2ffb91c91d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 25/40] fix: move limits of points near the domain boundary or
 a mask were ignored

The limit was only applied to points exactly on the domain boundary, so a
point that is close to it could be moved outside of the domain.
---
 src/Optimise.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index b4be3b7..35759ff 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -658,8 +658,9 @@ namespace slsm
                     displacements[i] += scaleFactors[j] * lambda[j] * boundaryPoints[i].sensitivities[k];
                 }
 
-                // Check side limits if point lies close to domain boundary.
-                if (boundaryPoints[i].isDomain)
+                // Check side limits if point lies close to domain boundary,
+                // or a masked region, i.e. they are tighter than the CFL limit.
+                if (boundaryPoints[i].negativeLimit > -maxDisplacement)
                 {
                     // Apply side limit (the point can't move outside the domain).
                     if (displacements[i] < boundaryPoints[i].negativeLimit)
-- 
2.43.0


From 9c9e5e00d63b4b28e53ca79c24c8edf6a3ce7b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 26/40] fix: a function without any sensitivity turned all
 velocities into NaN

The scale factor of a function whose sensitivities are all zero was infinite.
---
 src/Optimise.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 35759ff..69cc442 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -359,7 +359,7 @@ namespace slsm
             }
 
             // Store scale factor.
-            scaleFactors[i] = (1.0 / maxSens);
+            scaleFactors[i] = (maxSens > 0) ? (1.0 / maxSens) : 1.0;
         }
 
         // Create lambda vector (all zeros, i.e. at the origin).
@@ -376,7 +376,7 @@ namespace slsm
             computeGradients(gradient, i);
 
             // Scale by diagonal gradient entry (absolute value).
-            scaleFactors[i] *= (1.0 / std::abs(gradient[i]));
+            if (gradient[i] != 0) scaleFactors[i] *= (1.0 / std::abs(gradient[i]));
         }
     }
 
-- 
2.43.0


From 4f9857ba2abf635118cb1089327113d4e982e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 27/40] fix: whether a failed optimisation was repeated
 depended on uninitialised data

The return code isn't set when NLopt throws.
---
 src/Optimise.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 69cc442..f48c56c 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -255,6 +255,11 @@ namespace slsm
                 // Reduce the constraint change targets.
                 for (unsigned int i=0;i<nConstraints;i++)
                     constraintDistancesScaled[i] *= 0.7;
+
+                returnCode = nlopt::ROUNDOFF_LIMITED;
+
+                // There's nothing to relax, use the best solution so far.
+                if (nConstraints == 0) break;
             }
 
             // Catch argument errors.
@@ -262,6 +267,10 @@ namespace slsm
             {
                 errno = EINVAL;
                 slsm_log_err("Invalid arguments!");
+
+                // Trying again can't help.
+                returnCode = nlopt::INVALID_ARGS;
+                break;
             }
         }
 
-- 
2.43.0


From b35ade62e24b3059431ce1c1e3e2571d6dc6ab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 28/40] fix: the objective change returned by the optimiser
 ignored move limits

It was scaled as if displacements that are capped by a move limit scaled too,
and was never set when the optimisation failed.
---
 src/Optimise.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index f48c56c..909d808 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -278,7 +278,10 @@ namespace slsm
         computeDisplacements(lambdas);
 
         // Rescale the displacements and lambda values (if necessary).
-        optObjective *= rescaleDisplacements();
+        rescaleDisplacements();
+
+        // The change in the objective for these displacements.
+        optObjective = computeFunction(0);
 
         // Calculate the unscaled lambda values.
         for (unsigned int i=0;i<nConstraints+1;i++)
-- 
2.43.0


From a2a13f456342d93badd3a1a95f2e46aa8caaedd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:06 +0000
Subject: [PATCH 29/40] fix: reporting before any optimisation read an
 uninitialised return code

---
 src/Optimise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimise.h b/src/Optimise.h
index 692ae39..b854740 100644
--- a/src/Optimise.h
+++ b/src/Optimise.h
@@ -227,7 +227,7 @@ namespace slsm
         std::vector<std::vector<double> > gradients;
 
         /// Optimiser return code.
-        nlopt::result returnCode;
+        nlopt::result returnCode = static_cast<nlopt::result>(0);
 
         //! Compute scale factors.
         void computeScaleFactors();
-- 
2.43.0


From 73d86158e0005b7fd2e24e6b184b7bf9ff7ad62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:27 +0000
Subject: [PATCH 30/40] fix: the segments of a boundary could not be read from
 Python

---
 python/bindings/README.md         | 1 +
 python/bindings/bind_Boundary.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/python/bindings/README.md b/python/bindings/README.md
index 24b561b..d8c0646 100644
--- a/python/bindings/README.md
+++ b/python/bindings/README.md
@@ -73,6 +73,7 @@ pyslsm.VectorInt == std::vector<int>
 pyslsm.VectorUnsignedInt == std::vector<unsigned int>
 
 pyslsm.VectorBoundaryPoint == std::vector<slsm::BoundaryPoint>
+pyslsm.VectorBoundarySegment == std::vector<slsm::BoundarySegment>
 pyslsm.VectorCoord == std::vector<slsm::Coord>
 pyslsm.VectorElement == std::vector<slsm::Element>
 pyslsm.VectorHole == std::vector<slsm::Hole>
diff --git a/python/bindings/bind_Boundary.cpp b/python/bindings/bind_Boundary.cpp
index 3e44078..1c7a119 100644
--- a/python/bindings/bind_Boundary.cpp
+++ b/python/bindings/bind_Boundary.cpp
@@ -25,11 +25,13 @@ namespace py = pybind11;
 using namespace slsm;
 
 PYBIND11_MAKE_OPAQUE(std::vector<BoundaryPoint>)
+PYBIND11_MAKE_OPAQUE(std::vector<BoundarySegment>)
 
 void bind_Boundary(py::module &m)
 {
     // STL containers.
     py::bind_vector<std::vector<BoundaryPoint>>(m, "VectorBoundaryPoint", py::module_local());
+    py::bind_vector<std::vector<BoundarySegment>>(m, "VectorBoundarySegment", py::module_local());
 
     // Class definition.
     py::class_<BoundaryPoint>(m, "BoundaryPoint", py::module_local(),
-- 
2.43.0


From c454edd2db7b98b234336a25ddcc1b0f062a1228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:39 +0000
Subject: [PATCH 31/40] fix: new meshes, boundaries and level sets had
 uninitialised public members

---
 src/Boundary.cpp | 6 +++++-
 src/LevelSet.h   | 2 +-
 src/Mesh.cpp     | 8 ++++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 9deb04c..78cac1c 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -45,12 +45,16 @@ namespace slsm
     BoundarySegment::BoundarySegment() :
         start(0),
         end(0),
+        element(0),
         length(0),
         weight(0)
     {
     }
 
-    Boundary::Boundary()
+    Boundary::Boundary() :
+        nPoints(0),
+        nSegments(0),
+        length(0)
     {
     }
 
diff --git a/src/LevelSet.h b/src/LevelSet.h
index 047cc4a..24aa65d 100644
--- a/src/LevelSet.h
+++ b/src/LevelSet.h
@@ -287,7 +287,7 @@ namespace slsm
         unsigned int nMines;                    //!< The number of mine nodes.
         const double moveLimit;                 //!< The boundary movement limit (CFL condition).
 
-        double area;                            //!< The total mesh area fraction enclosed by the boundary.
+        double area = 0;                        //!< The total mesh area fraction enclosed by the boundary.
         Mesh mesh;                              //!< The fixed-grid mesh.
 
     private:
diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 5e5ea45..2f95e6d 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -29,7 +29,9 @@ namespace slsm
     Element::Element() :
         area(0),
         nodes(4, 0),
-        boundarySegments(4, 0)
+        boundarySegments(4, 0),
+        nBoundarySegments(0),
+        status(ElementStatus::NONE)
     {
     }
 
@@ -38,10 +40,12 @@ namespace slsm
         elements(4, 0),
         boundaryPoints(4, 0),
         nElements(0),
+        nBoundaryPoints(0),
         isActive(false),
         isDomain(false),
         isMasked(false),
-        isMine(false)
+        isMine(false),
+        status(NodeStatus::NONE)
     {
     }
 
-- 
2.43.0


From 398abb25d3d6d92f4d32ef41480728ac32d7255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:42 +0000
Subject: [PATCH 32/40] fix: copying a fast marching object that has marched
 freed its heap twice

---
 src/FastMarchingMethod.cpp | 5 +++++
 src/FastMarchingMethod.h   | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 4416161..2be212a 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -44,6 +44,11 @@ namespace slsm
         signedDistanceCopy.resize(mesh.nNodes);
     }
 
+    FastMarchingMethod::FastMarchingMethod(const FastMarchingMethod& other) :
+        FastMarchingMethod(other.mesh, other.isTest)
+    {
+    }
+
     FastMarchingMethod::~FastMarchingMethod()
     {
         delete heap;
diff --git a/src/FastMarchingMethod.h b/src/FastMarchingMethod.h
index 2384d9e..a4473b6 100644
--- a/src/FastMarchingMethod.h
+++ b/src/FastMarchingMethod.h
@@ -75,6 +75,12 @@ namespace slsm
          */
         FastMarchingMethod(const Mesh&, bool isTest_=false);
 
+        //! Copy constructor.
+        /*! \param other
+                The object to copy. (The heap is rebuilt for each march, so isn't shared.)
+         */
+        FastMarchingMethod(const FastMarchingMethod&);
+
         //! Destructor.
         ~FastMarchingMethod();
 
-- 
2.43.0


From 93fd5aef82a22b82b830846a0c1b99ec6f1ded6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:28 +0000
Subject: [PATCH 33/40] fix: demos read outside of the mesh for boundary points
 on its rim

---
 demos/bimodal.cpp        | 3 +++
 demos/bimodal_brolly.cpp | 3 +++
 demos/dumbbell.cpp       | 3 +++
 demos/shape_match.cpp    | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/demos/bimodal.cpp b/demos/bimodal.cpp
index dac7ce7..48de164 100644
--- a/demos/bimodal.cpp
+++ b/demos/bimodal.cpp
@@ -427,6 +427,9 @@ double computeConstraintSensitivity(const slsm::Coord& coord, const slsm::LevelS
         // Then its neighbours.
         else n = levelSet.mesh.nodes[node].neighbours[i];
 
+        // Skip neighbours that lie outside of the mesh.
+        if (n >= levelSet.mesh.nNodes) continue;
+
         // Distance from the boundary point to the node in x & y direction.
         double dx = levelSet.mesh.nodes[n].coord.x - coord.x;
         double dy = levelSet.mesh.nodes[n].coord.y - coord.y;
diff --git a/demos/bimodal_brolly.cpp b/demos/bimodal_brolly.cpp
index 7bad08b..b4166f2 100644
--- a/demos/bimodal_brolly.cpp
+++ b/demos/bimodal_brolly.cpp
@@ -541,6 +541,9 @@ double computeConstraintSensitivity(const slsm::Coord& coord, const slsm::LevelS
         // Then its neighbours.
         else n = levelSet.mesh.nodes[node].neighbours[i];
 
+        // Skip neighbours that lie outside of the mesh.
+        if (n >= levelSet.mesh.nNodes) continue;
+
         // Distance from the boundary point to the node in x & y direction.
         double dx = levelSet.mesh.nodes[n].coord.x - coord.x;
         double dy = levelSet.mesh.nodes[n].coord.y - coord.y;
diff --git a/demos/dumbbell.cpp b/demos/dumbbell.cpp
index ce2d637..5b816b7 100644
--- a/demos/dumbbell.cpp
+++ b/demos/dumbbell.cpp
@@ -374,6 +374,9 @@ double computeConstraintSensitivity(const slsm::Coord& coord, const slsm::LevelS
         // Then its neighbours.
         else n = levelSet.mesh.nodes[node].neighbours[i];
 
+        // Skip neighbours that lie outside of the mesh.
+        if (n >= levelSet.mesh.nNodes) continue;
+
         // Distance from the boundary point to the node in x & y direction.
         double dx = levelSet.mesh.nodes[n].coord.x - coord.x;
         double dy = levelSet.mesh.nodes[n].coord.y - coord.y;
diff --git a/demos/shape_match.cpp b/demos/shape_match.cpp
index d2c93e5..29883e8 100644
--- a/demos/shape_match.cpp
+++ b/demos/shape_match.cpp
@@ -299,6 +299,9 @@ double computeSensitivity(const slsm::Coord& coord, const slsm::LevelSet& levelS
         // Then its neighbours.
         else n = levelSet.mesh.nodes[node].neighbours[i];
 
+        // Skip neighbours that lie outside of the mesh.
+        if (n >= levelSet.mesh.nNodes) continue;
+
         // Distance from the boundary point to the node in x & y direction.
         double dx = levelSet.mesh.nodes[n].coord.x - coord.x;
         double dy = levelSet.mesh.nodes[n].coord.y - coord.y;
-- 
2.43.0


From 940e2c3fb9327004ebfb0e3949c732a9eecf3e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:02 +0000
Subject: [PATCH 34/40] fix: python demos left out one neighbour and read
 outside of the mesh

---
 python/bimodal.py     | 6 +++++-
 python/dumbbell.py    | 6 +++++-
 python/shape_match.py | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/python/bimodal.py b/python/bimodal.py
index 44bd7f3..c6106d1 100644
--- a/python/bimodal.py
+++ b/python/bimodal.py
@@ -69,7 +69,7 @@ def computeConstraintSensitivity(coord, levelSet):
     node = levelSet.mesh.getClosestNode(coord)
 
     # Loop over node and all of its neighbours.
-    for i in range(-1,3):
+    for i in range(-1,4):
         # Work out index of neighbour.
 
         # First test the node itself.
@@ -79,6 +79,10 @@ def computeConstraintSensitivity(coord, levelSet):
         else:
             n = levelSet.mesh.nodes[node].neighbours[i]
 
+        # Skip neighbours that lie outside of the mesh.
+        if n >= levelSet.mesh.nNodes:
+            continue
+
         # Distance from the boundary point to the node in x & y direction.
         dx = levelSet.mesh.nodes[n].coord.x - coord.x
         dy = levelSet.mesh.nodes[n].coord.y - coord.y
diff --git a/python/dumbbell.py b/python/dumbbell.py
index 9ebb24f..2b890ad 100644
--- a/python/dumbbell.py
+++ b/python/dumbbell.py
@@ -69,7 +69,7 @@ def computeConstraintSensitivity(coord, levelSet):
     node = levelSet.mesh.getClosestNode(coord)
 
     # Loop over node and all of its neighbours.
-    for i in range(-1,3):
+    for i in range(-1,4):
         # Work out index of neighbour.
 
         # First test the node itself.
@@ -79,6 +79,10 @@ def computeConstraintSensitivity(coord, levelSet):
         else:
             n = levelSet.mesh.nodes[node].neighbours[i]
 
+        # Skip neighbours that lie outside of the mesh.
+        if n >= levelSet.mesh.nNodes:
+            continue
+
         # Distance from the boundary point to the node in x & y direction.
         dx = levelSet.mesh.nodes[n].coord.x - coord.x
         dy = levelSet.mesh.nodes[n].coord.y - coord.y
diff --git a/python/shape_match.py b/python/shape_match.py
index 3012d67..bd96001 100644
--- a/python/shape_match.py
+++ b/python/shape_match.py
@@ -47,7 +47,7 @@ def computeSensitivity(coord, levelSet):
     node = levelSet.mesh.getClosestNode(coord)
 
     # Loop over node and all of its neighbours.
-    for i in range(-1,3):
+    for i in range(-1,4):
         # Work out index of neighbour.
 
         # First test the node itself.
@@ -57,6 +57,10 @@ def computeSensitivity(coord, levelSet):
         else:
             n = levelSet.mesh.nodes[node].neighbours[i]
 
+        # Skip neighbours that lie outside of the mesh.
+        if n >= levelSet.mesh.nNodes:
+            continue
+
         # Distance from the boundary point to the node in x & y direction.
         dx = levelSet.mesh.nodes[n].coord.x - coord.x
         dy = levelSet.mesh.nodes[n].coord.y - coord.y
-- 
2.43.0


From 1e1995100274c4f56210795e37652a1c1c816429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:30 +0000
Subject: [PATCH 35/40] fix: umbrella sampling demo refused its documented
 --umbrella-interval option

---
 demos/bimodal_brolly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/bimodal_brolly.cpp b/demos/bimodal_brolly.cpp
index b4166f2..1f544dc 100644
--- a/demos/bimodal_brolly.cpp
+++ b/demos/bimodal_brolly.cpp
@@ -731,7 +731,7 @@ void parseCommandLineArguments(int argc, char **argv, double& temperature,
             spring = atof(argv[i]);
         }
 
-        else if (strcmp(argv[i], "-ui") == 0 || strcmp(argv[i], "--unmbrella-interval") == 0)
+        else if (strcmp(argv[i], "-ui") == 0 || strcmp(argv[i], "--umbrella-interval") == 0)
         {
             i++;
             umbrellaInterval = atof(argv[i]);
-- 
2.43.0


From c385e8131c1b8c340bdde0c0150567b31e6020e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:30 +0000
Subject: [PATCH 36/40] fix: umbrella sampling demo read past its arguments
 when a value was missing

---
 demos/bimodal_brolly.cpp | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/demos/bimodal_brolly.cpp b/demos/bimodal_brolly.cpp
index 1f544dc..dccd521 100644
--- a/demos/bimodal_brolly.cpp
+++ b/demos/bimodal_brolly.cpp
@@ -82,6 +82,9 @@ double computeBiasPotential(double, double, double);
 // Acceptance function prototype.
 bool isAccepted(double, double, double, slsm::MersenneTwister&);
 
+// Get the value that follows a command-line option.
+char* getOptionValue(int, char**, int&);
+
 // Parse arguments from the command-line.
 void parseCommandLineArguments(int, char**, double&, double&, double&,
     double&, double&, unsigned int&, unsigned int&, char*, bool&, bool&);
@@ -698,6 +701,19 @@ bool isAccepted(double currentbias, double previousBias, double beta, slsm::Mers
     else return false;
 }
 
+// Get the value that follows a command-line option.
+char* getOptionValue(int argc, char** argv, int& i)
+{
+    if (i + 1 >= argc)
+    {
+        fprintf(stderr, "\n[ERROR]: Missing value for command-line option: %s\n", argv[i]);
+        fprintf(stderr, "For help run \"bimodal_brolly -h\"\n");
+        exit(EXIT_FAILURE);
+    }
+
+    return argv[++i];
+}
+
 // Parse arguments from the command-line.
 void parseCommandLineArguments(int argc, char **argv, double& temperature,
     double& gravityMult, double& centre, double& spring, double& umbrellaInterval,
@@ -709,51 +725,43 @@ void parseCommandLineArguments(int argc, char **argv, double& temperature,
     {
         if (strcmp(argv[i], "-t") == 0 || strcmp(argv[i], "--temperature") == 0)
         {
-            i++;
-            temperature = atof(argv[i]);
+            temperature = atof(getOptionValue(argc, argv, i));
         }
 
         else if (strcmp(argv[i], "-g") == 0 || strcmp(argv[i], "--gravity") == 0)
         {
-            i++;
-            gravityMult = atof(argv[i]);
+            gravityMult = atof(getOptionValue(argc, argv, i));
         }
 
         else if (strcmp(argv[i], "-c") == 0 || strcmp(argv[i], "--centre") == 0)
         {
-            i++;
-            centre = atof(argv[i]);
+            centre = atof(getOptionValue(argc, argv, i));
         }
 
         else if (strcmp(argv[i], "-s") == 0 || strcmp(argv[i], "--spring") == 0)
         {
-            i++;
-            spring = atof(argv[i]);
+            spring = atof(getOptionValue(argc, argv, i));
         }
 
         else if (strcmp(argv[i], "-ui") == 0 || strcmp(argv[i], "--umbrella-interval") == 0)
         {
-            i++;
-            umbrellaInterval = atof(argv[i]);
+            umbrellaInterval = atof(getOptionValue(argc, argv, i));
         }
 
         else if (strcmp(argv[i], "-si") == 0 || strcmp(argv[i], "--sample-interval") == 0)
         {
-            i++;
-            sampleInterval = atoi(argv[i]);
+            sampleInterval = atoi(getOptionValue(argc, argv, i));
         }
 
         else if (strcmp(argv[i], "-n") == 0 || strcmp(argv[i], "--number-samples") == 0)
         {
-            i++;
-            nSamples = atoi(argv[i]);
+            nSamples = atoi(getOptionValue(argc, argv, i));
         }
 
         else if (strcmp(argv[i], "-r") == 0 || strcmp(argv[i], "--restart") == 0)
         {
-            i++;
             isRestart = true;
-            strcpy(restart, argv[i]);
+            strcpy(restart, getOptionValue(argc, argv, i));
         }
 
         else if (strcmp(argv[i], "-b") == 0 || strcmp(argv[i], "--boundary-sample") == 0)
-- 
2.43.0


From 87d218c0441d557982a33a410de41b434c472060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:30 +0000
Subject: [PATCH 37/40] fix: umbrella sampling demo overran its buffer for long
 restart file names

---
 demos/bimodal_brolly.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/demos/bimodal_brolly.cpp b/demos/bimodal_brolly.cpp
index dccd521..b60cd88 100644
--- a/demos/bimodal_brolly.cpp
+++ b/demos/bimodal_brolly.cpp
@@ -87,7 +87,7 @@ char* getOptionValue(int, char**, int&);
 
 // Parse arguments from the command-line.
 void parseCommandLineArguments(int, char**, double&, double&, double&,
-    double&, double&, unsigned int&, unsigned int&, char*, bool&, bool&);
+    double&, double&, unsigned int&, unsigned int&, std::string&, bool&, bool&);
 
 // Print help message to stdout.
 void printHelpMessage();
@@ -142,7 +142,7 @@ int main(int argc, char** argv)
     unsigned int nSamples = 10000;
 
     // File name for the starting configuration.
-    char restart[100];
+    std::string restart;
 
     // Whether a restart file is being used.
     bool isRestart = false;
@@ -164,7 +164,7 @@ int main(int argc, char** argv)
     printf(" sampleInterval    = %d\n", sampleInterval);
     printf(" nSamples          = %d\n", nSamples);
     if (isRestart)
-        printf(" restart       = %s\n", restart);
+        printf(" restart       = %s\n", restart.c_str());
 
     // Inverse temperature.
     double beta = 1.0 / temperature;
@@ -717,7 +717,7 @@ char* getOptionValue(int argc, char** argv, int& i)
 // Parse arguments from the command-line.
 void parseCommandLineArguments(int argc, char **argv, double& temperature,
     double& gravityMult, double& centre, double& spring, double& umbrellaInterval,
-    unsigned int& sampleInterval, unsigned int& nSamples, char* restart, bool& isRestart, bool& isBoundarySample)
+    unsigned int& sampleInterval, unsigned int& nSamples, std::string& restart, bool& isRestart, bool& isBoundarySample)
 {
     int i = 1;
 
@@ -761,7 +761,7 @@ void parseCommandLineArguments(int argc, char **argv, double& temperature,
         else if (strcmp(argv[i], "-r") == 0 || strcmp(argv[i], "--restart") == 0)
         {
             isRestart = true;
-            strcpy(restart, getOptionValue(argc, argv, i));
+            restart = getOptionValue(argc, argv, i);
         }
 
         else if (strcmp(argv[i], "-b") == 0 || strcmp(argv[i], "--boundary-sample") == 0)
-- 
2.43.0


From 5d9e21032ed453304d2b5f237796277ae46c9bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:30 +0000
Subject: [PATCH 38/40] fix: umbrella sampling demo measured its first bias
 from another origin

---
 demos/bimodal_brolly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demos/bimodal_brolly.cpp b/demos/bimodal_brolly.cpp
index b60cd88..c580158 100644
--- a/demos/bimodal_brolly.cpp
+++ b/demos/bimodal_brolly.cpp
@@ -300,6 +300,7 @@ int main(int argc, char** argv)
     // Compute the initial centre of mass.
     double xCentreOfMass, tmp;
     computeCentreOfMass(boundary.points, xCentreOfMass, tmp);
+    xCentreOfMass -= 0.5*width;
 
     // Compute the initial bias potential.
     double biasPotential = computeBiasPotential(xCentreOfMass, centre, spring);
-- 
2.43.0


From ddb1557c45e14b81645aede21e6fbd59e1740a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:30 +0000
Subject: [PATCH 39/40] fix: dumbbell demo wrote past the signed distance for
 long configuration files

---
 demos/dumbbell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/dumbbell.cpp b/demos/dumbbell.cpp
index 5b816b7..ca78959 100644
--- a/demos/dumbbell.cpp
+++ b/demos/dumbbell.cpp
@@ -146,7 +146,7 @@ int main(int argc, char** argv)
         if (inputFile.good())
         {
             unsigned int i=0;
-            while (inputFile >> levelSet.signedDistance[i])
+            while (i < levelSet.mesh.nNodes && inputFile >> levelSet.signedDistance[i])
                 i++;
         }
         else
-- 
2.43.0


From 1c9eacd78038f071420d563b1c4513ca7991e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:28 +0000
Subject: [PATCH 40/40] fix: bimodal demos recorded the y position relative to
 half the width

---
 demos/bimodal.cpp | 2 +-
 python/bimodal.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/demos/bimodal.cpp b/demos/bimodal.cpp
index 48de164..263c5b7 100644
--- a/demos/bimodal.cpp
+++ b/demos/bimodal.cpp
@@ -358,7 +358,7 @@ int main(int argc, char** argv)
             lengths.push_back(length);
             mismatches.push_back(mismatch);
             xPositions.push_back(xPos-(width/2.0));
-            yPositions.push_back(yPos-(width/2.0));
+            yPositions.push_back(yPos-(height/2.0));
 
             // Update the time of the next sample.
             nextSample += sampleInterval;
diff --git a/python/bimodal.py b/python/bimodal.py
index c6106d1..73ebbde 100644
--- a/python/bimodal.py
+++ b/python/bimodal.py
@@ -473,7 +473,7 @@ while runningTime < maxTime:
         lengths.append(length)
         mismatches.append(mismatch)
         xPositions.append(xPos-(width/2.0))
-        yPositions.append(yPos-(width/2.0))
+        yPositions.append(yPos-(height/2.0))
 
         # Update the time of the next sample.
         nextSample += sampleInterval
-- 
2.43.0

