From c6057a3e2bac037b67dcffe1cc39471d89c2bf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 01/27] fix: solve over/under-determined systems and repeated
 solves in SgLinearSolve

The LAPACK call used the row major matrix with the wrong dimensions, which
returned wrong solutions for non-square systems, and a second solve (or a new
right hand side with the same matrix) worked on the factors left behind by
the first one.
---
 cpp/SgLinearSolve.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cpp/SgLinearSolve.h b/cpp/SgLinearSolve.h
index 384043d..0f49bce 100644
--- a/cpp/SgLinearSolve.h
+++ b/cpp/SgLinearSolve.h
@@ -6,7 +6,8 @@
 #define SG_LINEAR_SOLVE_H
 
 #include <vector>
-#include <cstdlib> // std::max
+#include <algorithm> // std::max, std::copy, std::fill
+#include <cstdlib>
 #include <cmath> // fabs
 
 // Fortran name mangling
@@ -81,15 +82,21 @@ struct SgLinearSolve_type {
 
   int solve() {
     int errCode = 0;
-    char t = 'T'; // C storage
+    // the matrix is stored row by row, which LAPACK sees as the transpose of
+    // our matrix: a column major matrix with ncol rows and nrow columns
+    char t = 'T';
     int nrhs = 1;
-    int ldb = (int) this->b.size();
+    int ldb = (int) this->x.size();
+    // the solver overwrites both the matrix and the right hand side
+    this->mat = this->matOri;
+    std::fill(this->x.begin(), this->x.end(), 0.0);
+    std::copy(this->b.begin(), this->b.end(), this->x.begin());
     _GELS_(&t, 
-           &this->nrow, 
            &this->ncol, 
+           &this->nrow, 
            &nrhs,
            &this->mat.front(), 
-           &this->nrow,
+           &this->ncol,
            &this->x.front(), &ldb,
            &this->work.front(), &this->lwork, 
            &errCode);
-- 
2.43.0


From 691f6dba26855aa83d683047e1f713b8f36fc8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 02/27] fix: do not read past the end of the points in
 SgTriangulate

This happened when all the points are on a line and when coincident points
had been removed.
---
 cpp/SgTriangulate.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index 94d7ef9..db5250a 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -105,8 +105,10 @@ struct SgTriangulate_type {
         // create the first, non-degenerate triangle
         size_t lastIndexOfFirstTriangle = this->makeFirstTriangle();
 
-        // add the remaining points
-        for (int ip = lastIndexOfFirstTriangle + 1; ip < numPoints; ++ip) {
+        // add the remaining points, there may be fewer points now that the degenerate
+        // points have been removed
+        size_t numPointsLeft = this->points.size() / NDIMS_2D_PHYS;
+        for (size_t ip = lastIndexOfFirstTriangle + 1; ip < numPointsLeft; ++ip) {
             this->addPoint(ip);
         }
     }
@@ -195,7 +197,7 @@ struct SgTriangulate_type {
         size_t i1 = 1;
         size_t i2 = 2;
         double area = std::abs(this->getParallelipipedArea(i0, i1, i2));
-        while (i2 < numPoints && area < this->eps) {
+        while (i2 + 1 < numPoints && area < this->eps) {
             // the points appear to be a line, get the two extremum point indices
             std::vector<size_t> extrema = this->getExtremaPointIndices(i0, i1, i2);
             i0 = extrema[0];
-- 
2.43.0


From ffdb15fa72a3bdce35d94480ea9110b53b4da6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:18 +0000
Subject: [PATCH 03/27] fix: wrong convex hull area in SgTriangulate

Edges shared by two triangles were kept as boundary edges when a point sees
several edges, which added overlapping triangles later on. Keep the boundary a
closed loop by replacing the connected chain of visible edges. Compare each
point to all the points retained so far when removing coincident points since
points sorted by distance to the centre need not be neighbors.
---
 cpp/SgTriangulate.h | 104 ++++++++++++++++++++++++++------------------
 1 file changed, 61 insertions(+), 43 deletions(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index db5250a..d13f077 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -9,6 +9,7 @@
  
 #include <vector>
 #include <algorithm>
+#include <map>
 #include <set>
 #include <cstdio> // size_t
 #include <cmath>
@@ -139,16 +140,22 @@ struct SgTriangulate_type {
         }
 
         // iterate over the remaining points, making sure the distance square between this 
-        // and the previous point is > 0
-        size_t i0 = 0;
+        // point and all the points retained so far is > 0. Note that the points are sorted 
+        // by distance from the centre, two coincident points need not be consecutive
         for (size_t i1 = 1; i1 < numPoints; ++i1) {
-            if (this->getDistanceSquare(i0, i1) > this->eps) {
-                // not degenerate
+            bool degenerate = false;
+            for (size_t i0 = 0; i0 < pts.size()/NDIMS_2D_PHYS && !degenerate; ++i0) {
+                double distanceSquare = 0;
+                for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+                    double d = this->points[i1*NDIMS_2D_PHYS + j] - pts[i0*NDIMS_2D_PHYS + j];
+                    distanceSquare += d * d;
+                }
+                degenerate = distanceSquare <= this->eps;
+            }
+            if (!degenerate) {
                 for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
                     pts.push_back(this->points[i1*NDIMS_2D_PHYS + j]);
                 }
-                // new base point
-                i0 = i1;
             }
         }
         // copy
@@ -260,10 +267,7 @@ struct SgTriangulate_type {
 
     bool inline isEdgeVisible(size_t ip, size_t ie0, size_t ie1) {
         double area = this->getParallelipipedArea(ip, ie0, ie1);
-        if (area < -this->eps) {
-            return true;
-        }
-        return false;
+        return area < 0;
     }
 
     double getConvexHullArea() const {
@@ -277,49 +281,63 @@ struct SgTriangulate_type {
     }
 
 
+    /**
+     * Add a point to the triangulation
+     * @param ip index of the point
+     */
     void addPoint(size_t ip) {
 
-        std::set< std::vector<size_t> > boundaryEdgesToRemove;
-        std::set< std::vector<size_t> > boundaryEdgesToAdd;
-
-        // iterate over boundary edges
+        // the boundary edges form a closed loop, store the neighbors of each boundary
+        // point and find the edge that is the most visible from the point
+        std::map<size_t, size_t> nextPoint;
+        std::map<size_t, size_t> prevPoint;
+        double minArea = 0;
+        size_t iea = 0, ieb = 0;
         for (std::set< std::vector<size_t> >::const_iterator it = this->boundaryEdges.begin();
              it != this->boundaryEdges.end(); ++it) {
-            size_t iea = (*it)[0];
-            size_t ieb = (*it)[1];
-            if (this->isEdgeVisible(ip, iea, ieb)) {
-
-                // create new triangle
-                size_t tri[] = {iea, ip, ieb};
-                this->triIndices.insert(std::vector<size_t>(tri, tri + 3));
-
-                // keep track of edges to remove
-                std::vector<size_t> oldEdge(&(*it)[0], &(*it)[2]);
-                boundaryEdgesToRemove.insert(oldEdge);
-
-                // keep track of edges to add
-                std::vector<size_t> newEdge(2);
-                newEdge[0] = iea;
-                newEdge[1] = ip;
-                boundaryEdgesToAdd.insert(newEdge);
-                newEdge[0] = ip;
-                newEdge[1] = ieb;
-                boundaryEdgesToAdd.insert(newEdge);
+            size_t ie0 = (*it)[0];
+            size_t ie1 = (*it)[1];
+            nextPoint[ie0] = ie1;
+            prevPoint[ie1] = ie0;
+            double area = this->getParallelipipedArea(ip, ie0, ie1);
+            if (this->isEdgeVisible(ip, ie0, ie1) && area < minArea) {
+                minArea = area;
+                iea = ie0;
+                ieb = ie1;
             }
         }
 
-        // remove the old boundary edges
-        for (std::set< std::vector<size_t> >::const_iterator it = boundaryEdgesToRemove.begin();
-             it != boundaryEdgesToRemove.end(); ++it) {
-            this->boundaryEdges.erase(*it);
+        if (iea == ieb) {
+            // no edge is visible, the point is inside
+            return;
         }
 
-        // add the new boundary edges
-        for (std::set< std::vector<size_t> >::const_iterator 
-             it = boundaryEdgesToAdd.begin();
-             it != boundaryEdgesToAdd.end(); ++it) {
-            this->boundaryEdges.insert(*it);
+        // extend to the chain of visible edges going from point iea to point ieb
+        while (nextPoint[ieb] != iea && this->isEdgeVisible(ip, ieb, nextPoint[ieb])) {
+            ieb = nextPoint[ieb];
+        }
+        while (prevPoint[iea] != ieb && this->isEdgeVisible(ip, prevPoint[iea], iea)) {
+            iea = prevPoint[iea];
         }
+
+        // connect the point to each edge of the chain. These edges are no longer boundary edges
+        std::vector<size_t> edge(2);
+        for (size_t ie0 = iea; ie0 != ieb; ie0 = nextPoint[ie0]) {
+            size_t ie1 = nextPoint[ie0];
+            size_t tri[] = {ie0, ip, ie1};
+            this->triIndices.insert(std::vector<size_t>(tri, tri + 3));
+            edge[0] = ie0;
+            edge[1] = ie1;
+            this->boundaryEdges.erase(edge);
+        }
+
+        // the two edges that close the loop
+        edge[0] = iea;
+        edge[1] = ip;
+        this->boundaryEdges.insert(edge);
+        edge[0] = ip;
+        edge[1] = ieb;
+        this->boundaryEdges.insert(edge);
     }
 };
  
-- 
2.43.0


From 990d91212bf0ccb6215a5d6073c40cf7ecb0a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 04/27] fix: start from scratch when collecting quad-quad and
 quad-line intersections

The points of previous calls were returned again when reusing the object.
---
 cpp/SgQuadIntersect.h     | 3 +++
 cpp/SgQuadLineIntersect.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index ea312c9..9f6620a 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -227,6 +227,9 @@ struct SgQuadIntersect_type {
         *numPoints = 0;
         double pt[NDIMS_2D_PHYS];
 
+        // start from scratch
+        this->reset();
+
         this->collectNodesInsideQuad((const double*)this->quad1Coords, 
                                      (const double*)this->quad2Coords);
         this->collectNodesInsideQuad((const double*)this->quad2Coords,
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index 55502a2..b6aeb26 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -236,6 +236,9 @@ struct SgQuadLineIntersect_type {
 
         *numPoints = 0;
 
+        // start from scratch
+        this->reset();
+
         // add the starting line point if inside the quad
         if (this->isPointInQuad(&this->lineCoords[0*NDIMS_2D_PHYS], this->quadCoords)) {
           this->intersectionLambdas.push_back(0.0);
-- 
2.43.0


From f5bb94c6c5442175289af4d47f593fa9a0e2645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 05/27] fix: release the linear solver of SgQuadIntersect and
 SgQuadLineIntersect

The solver leaked when the objects were not deleted through the C functions.
---
 cpp/SgQuadIntersect.cpp     | 1 -
 cpp/SgQuadIntersect.h       | 7 +++++++
 cpp/SgQuadLineIntersect.cpp | 1 -
 cpp/SgQuadLineIntersect.h   | 7 +++++++
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cpp/SgQuadIntersect.cpp b/cpp/SgQuadIntersect.cpp
index 44ceb24..80cbf92 100644
--- a/cpp/SgQuadIntersect.cpp
+++ b/cpp/SgQuadIntersect.cpp
@@ -16,7 +16,6 @@ int SgQuadIntersect_new(SgQuadIntersect_type** self) {
 extern "C"                   
 int SgQuadIntersect_del(SgQuadIntersect_type** self) {
 
- 	if ((*self)->slvr) delete (*self)->slvr;
  	delete *self;
 
  	return 0;
diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index 9f6620a..0738a5a 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -48,6 +48,13 @@ struct SgQuadIntersect_type {
         this->quad2Coords = NULL;
     }
 
+    /**
+     * Destructor
+     */
+    ~SgQuadIntersect_type() {
+        delete this->slvr;
+    }
+
     void reset() {
         this->intersectionPoints.resize(0);
     }
diff --git a/cpp/SgQuadLineIntersect.cpp b/cpp/SgQuadLineIntersect.cpp
index b6582dd..e7aa5aa 100644
--- a/cpp/SgQuadLineIntersect.cpp
+++ b/cpp/SgQuadLineIntersect.cpp
@@ -16,7 +16,6 @@ int SgQuadLineIntersect_new(SgQuadLineIntersect_type** self) {
 extern "C"                   
 int SgQuadLineIntersect_del(SgQuadLineIntersect_type** self) {
 
- 	if ((*self)->slvr) delete (*self)->slvr;
  	delete *self;
 
  	return 0;
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index b6aeb26..1e2d3dc 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -61,6 +61,13 @@ struct SgQuadLineIntersect_type {
         this->lineCoords = NULL;
     }
 
+    /**
+     * Destructor
+     */
+    ~SgQuadLineIntersect_type() {
+        delete this->slvr;
+    }
+
     void reset() {
         this->intersectionLambdas.resize(0);
     }
-- 
2.43.0


From 256e329c2f7d6a86b0b3f36be28fa2d0fe8a8c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 06/27] fix: release the source grid iterators of
 SgFlowInterp2D

---
 cpp/SgFlowInterp2D.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index 05ace57..b242c55 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -54,11 +54,20 @@ struct SgFlowInterp2D_type {
      * Destructor
      */
     ~SgFlowInterp2D_type() {
-        if (this->srcNodeIt) {
-            delete this->srcNodeIt;
-        }
+        this->deleteSrcIterators();
+    }
+
+    /**
+     * Delete the source grid iterators
+     */
+    void deleteSrcIterators() {
+        delete this->srcNodeIt;
+        this->srcNodeIt = NULL;
+        delete this->srcCellIt;
+        this->srcCellIt = NULL;
         for (size_t i = 0; i < this->srcEdgeIts.size(); ++i) {
             delete this->srcEdgeIts[i];
+            this->srcEdgeIts[i] = NULL;
         }
     }
 
@@ -108,6 +117,7 @@ struct SgFlowInterp2D_type {
         int srcEdge1Dims[] = {dims[0], dims[1] - 1};
 
         const int zeros[] = {0, 0};
+        this->deleteSrcIterators();
         this->srcNodeIt = new SgBoxIterator_type(2, zeros, dims);
         this->srcCellIt = new SgBoxIterator_type(2, zeros, srcCellDims);
         this->srcEdgeIts[0] = new SgBoxIterator_type(2, zeros, srcEdge0Dims);
-- 
2.43.0


From dd7ec46be07410f7e575a60f7d75e8c42417acca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:09 +0000
Subject: [PATCH 07/27] fix: start from scratch when computing the weights of
 the conservative and flow interpolations

Calling computeWeights again kept the weights of the previous grids
(conservative) or added the new weights to the old ones (flow).
---
 cpp/SgConserveInterp2D.h | 3 +++
 cpp/SgFlowInterp2D.h     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cpp/SgConserveInterp2D.h b/cpp/SgConserveInterp2D.h
index 0057ed3..7cbc4d2 100644
--- a/cpp/SgConserveInterp2D.h
+++ b/cpp/SgConserveInterp2D.h
@@ -153,6 +153,9 @@ struct SgConserveInterp2D_type {
 	 */
 	void computeWeights() {
 
+		// start from scratch
+		this->weights.clear();
+
 		// cache the edge to edge intersections
 		std::map< std::pair< std::vector<size_t>, std::vector<size_t> >, std::vector<double> > cacheEdgeX;
 
diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index b242c55..da96912 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -203,6 +203,9 @@ struct SgFlowInterp2D_type {
                                 1, 1,
                                 0, 1};
 
+        // start from scratch
+        this->weights.clear();
+
         SgQuadLineIntersect_type intersector;
         SgQuadLineFlows_type weightCalc;
 
-- 
2.43.0


From 35d22a2a8563bb0643f748dd9e3e01ba827cda7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 08/27] fix: iterate over the weights of SgConserveInterp2D
 when there are none

The iterators were dereferenced past the end of the weights, also when
constructing the object, and were left invalid by computeWeights.
---
 cpp/SgConserveInterp2D.h | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/cpp/SgConserveInterp2D.h b/cpp/SgConserveInterp2D.h
index 7cbc4d2..1f55f7c 100644
--- a/cpp/SgConserveInterp2D.h
+++ b/cpp/SgConserveInterp2D.h
@@ -331,6 +331,9 @@ struct SgConserveInterp2D_type {
 				this->weights.insert(p);
 			}
 		}
+
+		// the iterators were invalidated
+		this->reset();
 	}
 
 	/**
@@ -338,7 +341,9 @@ struct SgConserveInterp2D_type {
 	 */
 	void reset() {
 		this->weightIt = this->weights.begin();
-		this->weightIt2 = this->weightIt->second.begin();		
+		if (this->weightIt != this->weights.end()) {
+			this->weightIt2 = this->weightIt->second.begin();
+		}
 	}
 
 	/** 
@@ -346,13 +351,15 @@ struct SgConserveInterp2D_type {
 	 * @return 0 (= continue) or 1 (= stop)
 	 */
 	int next() {
+		if (this->weights.empty()) {
+			// nothing to iterate over
+			return 1;
+		}
 		// increment source counter
 		this->weightIt2++;
 		if (this->weightIt2 == this->weightIt->second.end()) {
 			// reached end of src counter, increment dst counter
 			this->weightIt++;
-			// reset src counter
-			this->weightIt2 = this->weightIt->second.begin();
 			if (this->weightIt == this->weights.end()) {
 				// reached end of dst counter
 				// reset dst and src counters
@@ -360,17 +367,25 @@ struct SgConserveInterp2D_type {
 				// end of iteration 
 				return 1;
 			}
+			// reset src counter
+			this->weightIt2 = this->weightIt->second.begin();
 		}
 		return 0;
 	}
 
 	/**
 	 * Get the current src grid index, dst grid index and weight
-	 * @param srcIndx src grid flat index (output)
-	 * @param dstIndx dst grid flat index (output)
-	 * @param weight interpolation weight (output)
+	 * @param srcIndx src grid flat index (output), -1 if there are no weights
+	 * @param dstIndx dst grid flat index (output), -1 if there are no weights
+	 * @param weight interpolation weight (output), 0 if there are no weights
 	 */
 	void get(int* srcIndx, int* dstIndx, double* weight) {
+		if (this->weights.empty()) {
+			*dstIndx = -1;
+			*srcIndx = -1;
+			*weight = 0;
+			return;
+		}
 		*dstIndx = this->weightIt->first;
 		*srcIndx = this->weightIt2->first;
 		*weight = this->weightIt2->second;
-- 
2.43.0


From e57b1c206608adf7a79fd7624a8371e3ce8e05f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:42 +0000
Subject: [PATCH 09/27] fix: setting another grid in SgFindPointInCell

The domain bounds and the periodicity of the previous grid were kept and the
linear solver leaked. The test for targets outside the domain now allows for
round off errors that are relative to the size of the coordinates.
---
 cpp/SgFindPointInCell.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index f3980a4..661cfb1 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -6,6 +6,7 @@
 #define SG_FIND_POINT_IN_CELL_H
  
 #include <vector>
+#include <algorithm>
 #include <cstdio> // size_t
 #include <cmath>
 #include <limits>
@@ -106,10 +107,10 @@ void setGrid(int ndims, const int dims[], const int periodicity[],
     this->rhs.resize(ndims);
     this->dIndices.resize(ndims);
     this->targetPoint.resize(ndims);
-    this->xmins.resize(ndims, std::numeric_limits<double>::max());
-    this->xmaxs.resize(ndims, -std::numeric_limits<double>::max());
+    this->xmins.assign(ndims, std::numeric_limits<double>::max());
+    this->xmaxs.assign(ndims, -std::numeric_limits<double>::max());
     // default is no periodicity
-    this->indexPeriodicity.resize(ndims, 0.0);
+    this->indexPeriodicity.assign(ndims, 0.0);
     for (int i = 0; i < ndims; ++i) {
         if (periodicity[i] != 0) {
             this->indexPeriodicity[i] = (double) dims[i];
@@ -142,6 +143,7 @@ void setGrid(int ndims, const int dims[], const int periodicity[],
     }
 
     // create a solver
+    delete this->slvr;
     this->slvr = new SgLinearSolve_type(ndims, ndims);
 }
 
@@ -217,8 +219,10 @@ int next() {
     // THIS SHOULD BE MOVED TO THE reset METHOD!!!!!
     bool inside = true;
     for (size_t i = 0; i < ndims; ++i) {
-        inside &= this->targetPoint[i] >= this->xmins[i] - eps;
-        inside &= this->targetPoint[i] <= this->xmaxs[i] + eps;
+        // allow for round off errors
+        double tol = eps * std::max(1.0, std::max(fabs(this->xmins[i]), fabs(this->xmaxs[i])));
+        inside &= this->targetPoint[i] >= this->xmins[i] - tol;
+        inside &= this->targetPoint[i] <= this->xmaxs[i] + tol;
     }
     if (!inside) {
         return -3;
-- 
2.43.0


From 42692cf16e94a098d66ca3299a809b373bea713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 10/27] fix: add the interpolation weights found by approaching
 the target from the sides

SgNodeInterp2D searched again but then dropped the destination node.
---
 cpp/SgNodeInterp2D.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/cpp/SgNodeInterp2D.h b/cpp/SgNodeInterp2D.h
index 0359048..922f414 100644
--- a/cpp/SgNodeInterp2D.h
+++ b/cpp/SgNodeInterp2D.h
@@ -166,12 +166,7 @@ struct SgNodeInterp2D_type {
 
             if (ier == 0) {
                 // normal termination, found the index location
-                const std::vector<double>& dInds = this->pointFinder->getIndices();
-                const std::vector< std::pair<size_t, double> > 
-                    iw = this->pointFinder->getSrcIndicesAndWeights(dInds);
-                std::pair<size_t, std::vector< std::pair<size_t, double> > > p(dstNodeIndex, iw);
-                this->weights.insert(p);
-
+                this->addWeights(dstNodeIndex);
             }
             else if (ier == -3) {
               std::cerr << "WARNING: target point " << 
@@ -199,7 +194,10 @@ struct SgNodeInterp2D_type {
                     stop = sit.next();
                 }
 
-                if (ier != 0) {
+                if (ier == 0) {
+                    this->addWeights(dstNodeIndex);
+                }
+                else {
                     std::cerr << "ERROR: failed to find the index point for " << 
                           targetPoint[0] << ", " << targetPoint[1] << '\n';
                     std::vector<double> pos = this->pointFinder->getPosition();
@@ -214,6 +212,18 @@ struct SgNodeInterp2D_type {
 
 private:
 
+    /**
+     * Add the interpolation weights at the index location found by the search
+     * @param dstNodeIndex destination node index
+     */
+    void addWeights(size_t dstNodeIndex) {
+        const std::vector<double>& dInds = this->pointFinder->getIndices();
+        const std::vector< std::pair<size_t, double> > 
+            iw = this->pointFinder->getSrcIndicesAndWeights(dInds);
+        std::pair<size_t, std::vector< std::pair<size_t, double> > > p(dstNodeIndex, iw);
+        this->weights.insert(p);
+    }
+
     /**
      * Find target
      * @param target position
-- 
2.43.0


From 622fd5106520947305e146bd1bff391bc5c48035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 11/27] fix: flat cell indices of SgFindOverlappingCells2D

The number of nodes was used instead of the number of cells.
---
 cpp/SgFindOverlappingCells2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/SgFindOverlappingCells2D.h b/cpp/SgFindOverlappingCells2D.h
index 478955a..e9e4608 100644
--- a/cpp/SgFindOverlappingCells2D.h
+++ b/cpp/SgFindOverlappingCells2D.h
@@ -78,7 +78,7 @@ struct SgFindOverlappingCells2D_type {
         this->srcCellProdDims[NDIMS_2D_TOPO - 1] = 1;
         for (int j = NDIMS_2D_TOPO - 2; j >= 0; --j) {
             // last index varies fastest
-            this->srcCellProdDims[j] = this->srcCellProdDims[j + 1] * dims[j + 1];
+            this->srcCellProdDims[j] = this->srcCellProdDims[j + 1] * (dims[j + 1] - 1);
           }
         this->pointFinder->setGrid(2, dims, periodicity, coords);
     }
-- 
2.43.0


From c72c5d5bea58f6ee58443ae50063f6a41da91b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 12/27] fix: polygons that are partially outside the grid in
 SgFindOverlappingCells2D

The index box then included the initial guess of the search instead of the
location closest to the polygon's point and cells were missed. Return a null
pointer when there are no cells.
---
 cpp/SgFindOverlappingCells2D.cpp |  5 ++++-
 cpp/SgFindOverlappingCells2D.h   | 11 +++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/cpp/SgFindOverlappingCells2D.cpp b/cpp/SgFindOverlappingCells2D.cpp
index 0082c73..71c154c 100644
--- a/cpp/SgFindOverlappingCells2D.cpp
+++ b/cpp/SgFindOverlappingCells2D.cpp
@@ -46,6 +46,9 @@ int SgFindOverlappingCells2D_getNumberOfSrcCellIndices(SgFindOverlappingCells2D_
 extern "C"
 int SgFindOverlappingCells2D_getSrcCellIndices(SgFindOverlappingCells2D_type** self,
                                                int** srcCellInds) {
-    *srcCellInds = &(*self)->srcCellFlatInds.front();
+    *srcCellInds = NULL;
+    if ((*self)->srcCellFlatInds.size() > 0) {
+        *srcCellInds = &(*self)->srcCellFlatInds.front();
+    }
     return 0;
 }
diff --git a/cpp/SgFindOverlappingCells2D.h b/cpp/SgFindOverlappingCells2D.h
index e9e4608..f8d73ba 100644
--- a/cpp/SgFindOverlappingCells2D.h
+++ b/cpp/SgFindOverlappingCells2D.h
@@ -9,6 +9,7 @@
 #include "SgFindPointInCell.h"
 #include "SgBoxIterator.h"
 #include <vector>
+#include <algorithm>
 #include <cstdio> // size_t
 
 struct SgFindOverlappingCells2D_type {
@@ -123,8 +124,14 @@ struct SgFindOverlappingCells2D_type {
 
             bool iterFlag = true;
 
-            // make this polygon's point th etarget point
-            const double* targetPoint = &this->polyPoints[i*NDIMS_2D_PHYS];
+            // make this polygon's point the target point. The search stops right away for 
+            // points outside the box containing the grid, take the closest point of the box
+            double targetPoint[NDIMS_2D_PHYS];
+            for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+                targetPoint[j] = this->polyPoints[i*NDIMS_2D_PHYS + j];
+                targetPoint[j] = std::max(targetPoint[j], this->pointFinder->getSrcDomainLo()[j]);
+                targetPoint[j] = std::min(targetPoint[j], this->pointFinder->getSrcDomainHi()[j]);
+            }
 
             // start search
             this->pointFinder->reset(dIndices, targetPoint);
-- 
2.43.0


From 68c3123b6cd9fd46cf775b0a9994ab3f94dc31eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 13/27] fix: take the centre into account in createPolarGrid

The centre was added to the radius and the angle instead of the coordinates.
---
 utils/createGrids2D.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/createGrids2D.cpp b/utils/createGrids2D.cpp
index aa375a9..e79cdba 100644
--- a/utils/createGrids2D.cpp
+++ b/utils/createGrids2D.cpp
@@ -52,10 +52,10 @@ void createPolarGrid(const int nodeDims[],
     size_t index = 0;
     for (size_t i = 0; i < nodeDims[0]; ++i) {
         for (size_t j = 0; j < nodeDims[1]; ++j) {
-            double rho = center[0] + deltas[0]*i;
-            double the = center[1] + deltas[1]*j;
-            coords[0][index] = rho*cos(the);
-            coords[1][index] = rho*sin(the);
+            double rho = deltas[0]*i;
+            double the = deltas[1]*j;
+            coords[0][index] = center[0] + rho*cos(the);
+            coords[1][index] = center[1] + rho*sin(the);
             index++;
         }
     }
-- 
2.43.0


From 0e89385fb921614f90faa1be8cd13d5ab68ea7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:25 +0000
Subject: [PATCH 14/27] fix: accept negative values that start with a decimal
 point in CmdLineArgParser

-.5 was reported as an invalid option.
---
 utils/CmdLineArgParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/CmdLineArgParser.cpp b/utils/CmdLineArgParser.cpp
index 881dc49..725c17c 100644
--- a/utils/CmdLineArgParser.cpp
+++ b/utils/CmdLineArgParser.cpp
@@ -74,7 +74,7 @@ CmdLineArgParser::parse(int argc, char *argv[]) {
         std::string arg(argv[a]);
         // is arg the name of an option (or a value)?
         bool isOptionName = (arg[0] == '-') 
-            && (arg.size() >= 2) && !isdigit(arg[1]);
+            && (arg.size() >= 2) && !isdigit(arg[1]) && arg[1] != '.';
         if (isOptionName) {
             bool isValidOptName = 
                doubleArg.find(arg) != doubleArg.end()
-- 
2.43.0


From cc50037ea4080b6e31e1050e045a0193fa7745db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 15/27] fix: apply requires new weights after changing a grid
 in the Python interface

The weights of the previous grids were applied, possibly writing past the end
of the destination data.
---
 py/conserveInterp2D.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/conserveInterp2D.py b/py/conserveInterp2D.py
index 0037bd3..7759e44 100644
--- a/py/conserveInterp2D.py
+++ b/py/conserveInterp2D.py
@@ -36,6 +36,8 @@ class ConserveInterp2D:
 
 		sigrid.so.SgConserveInterp2D_setDstGrid(ctypes.byref(self.handle), dims, coords)
 		self.dstData = numpy.zeros((n0 - 1, n1 - 1), numpy.float64)
+		# the weights, if any, are those of the previous grid
+		self.hasInterpWeights = False
 
 	def setSrcGrid(self, periodicity, xcoords, ycoords):
 		"""
@@ -52,6 +54,8 @@ class ConserveInterp2D:
 		                                                   ycoords.ctypes.data_as(ctypes.POINTER(ctypes.c_double)))
 		sigrid.so.SgConserveInterp2D_setSrcGrid(ctypes.byref(self.handle), dims, periods, coords)
 		self.hasSrcCoords = True
+		# the weights, if any, are those of the previous grid
+		self.hasInterpWeights = False
 
 	def apply(self, srcData):
 		"""
-- 
2.43.0


From cd3154d571d65cec71785a85d9e36a995bf93ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 16/27] fix: convert the arrays of the Python interface to
 contiguous doubles

Strided, Fortran ordered and integer arrays were read with the wrong layout.
---
 py/conserveInterp2D.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/py/conserveInterp2D.py b/py/conserveInterp2D.py
index 7759e44..3979cd2 100644
--- a/py/conserveInterp2D.py
+++ b/py/conserveInterp2D.py
@@ -4,6 +4,14 @@ import sigrid
 
 NDIMS = 2
 
+def _toDoubles(array):
+	"""
+	Convert to the memory layout expected by the library
+	@param array array of numbers
+	@return contiguous array of doubles, without a copy if possible
+	"""
+	return numpy.ascontiguousarray(array, dtype=numpy.float64)
+
 class ConserveInterp2D:
 
 	def __init__(self,):
@@ -29,6 +37,7 @@ class ConserveInterp2D:
 		@param xcoords array of point coordinates
 		@param ycoords array of point coordinates
 		"""
+		xcoords, ycoords = _toDoubles(xcoords), _toDoubles(ycoords)
 		n0, n1 = xcoords.shape
 		dims = (ctypes.c_int * NDIMS)(n0, n1)
 		coords = (ctypes.POINTER(ctypes.c_double) * NDIMS)(xcoords.ctypes.data_as(ctypes.POINTER(ctypes.c_double)),
@@ -46,6 +55,7 @@ class ConserveInterp2D:
 		@param xcoords array of point coordinates
 		@param ycoords array of point coordinates 
 		"""
+		xcoords, ycoords = _toDoubles(xcoords), _toDoubles(ycoords)
 		n0, n1 = xcoords.shape
 		dims = (ctypes.c_int * NDIMS)(n0, n1)
 		p0, p1 = int(periodicity[0]), int(periodicity[1])
@@ -65,6 +75,7 @@ class ConserveInterp2D:
 		"""
 		if not self.hasInterpWeights:
 			raise RuntimeError('ERROR: must call "computeWeights" prior to invoking "apply"')
+		srcData = _toDoubles(srcData)
 		self.dstData *= 0 # initialize to zero
 		sigrid.so.SgConserveInterp2D_apply(ctypes.byref(self.handle),
 			                               srcData.ctypes.data_as(ctypes.POINTER(ctypes.c_double)),
-- 
2.43.0


From b2d7a84931083943c455e775ed16fcd915b535f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:35 +0000
Subject: [PATCH 17/27] fix: flow of segments that run along the cell edges in
 SgFlowInterp2D

Segments on an interior grid line were counted once per adjacent cell and
segments on the domain boundary could be lost because of the perturbation
of the destination points.
---
 cpp/SgFlowInterp2D.h | 73 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 15 deletions(-)

diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index da96912..4a26244 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -78,8 +78,6 @@ struct SgFlowInterp2D_type {
      */
     void setDstGrid(const int dims[], const double** coords) {
 
-        const double eps = 10 * std::numeric_limits<double>::epsilon();
-
         size_t dstNumPoints = 1;
         this->dstNumCells = 1;
         for (size_t j = 0; j < NDIMS_1D_TOPO; ++j) {
@@ -91,11 +89,7 @@ struct SgFlowInterp2D_type {
         this->dstGrdCoords.resize(NDIMS_2D_PHYS * dstNumPoints);
         for (size_t k = 0; k < NDIMS_2D_PHYS; ++k) {
             for (size_t i = 0; i < dstNumPoints; ++i) {
-                //this->dstGrdCoords[i*NDIMS_2D_PHYS + k] = coords[k][i];
-                // apply small perturbation
-                double pertAngle = 1.99 * M_PI * double(i)/double(dstNumPoints - 1);
-                double pertAmpl = eps * (k + 1);
-                this->dstGrdCoords[i*NDIMS_2D_PHYS + k] = coords[k][i] + pertAmpl*cos(pertAngle);
+                this->dstGrdCoords[i*NDIMS_2D_PHYS + k] = coords[k][i];
             }
         }
     }
@@ -217,6 +211,11 @@ struct SgFlowInterp2D_type {
 
             intersector.setLinePoints(dstLineCoords);
 
+            // the disjoint parts of the segment that have been claimed by a src cell, as 
+            // {start: end} line parametric coordinates. A segment that runs along the edge 
+            // shared by two cells must be accounted for only once
+            std::map<double, double> claimed;
+
             // iterate over the src quads
             for (size_t srcIndx = 0; srcIndx < this->srcNumCells; ++srcIndx) {
 
@@ -259,15 +258,28 @@ struct SgFlowInterp2D_type {
                     
                     weightCalc.setQuadPoints(srcQuadCoords);
 
-                    // iterate over the segments
+                    // iterate over the segments, leaving out what has already been claimed
+                    const std::vector<double> lambdas = intersector.intersectionLambdas;
                     for (int i = 0; i < numPoints - 1; ++i) {
-                        weightCalc.setLinePoints(&points[i*NDIMS_2D_PHYS]);
-                        weightCalc.computeProjections();
-                        
-                        w[0] += weightCalc.getProjection(EDGE_LO_0);
-                        w[1] += weightCalc.getProjection(EDGE_HI_0);
-                        w[2] += weightCalc.getProjection(EDGE_LO_1);
-                        w[3] += weightCalc.getProjection(EDGE_HI_1);
+                        const std::vector< std::pair<double, double> > parts = 
+                            this->claimSegment(lambdas[i], lambdas[i + 1], claimed);
+
+                        for (size_t ip = 0; ip < parts.size(); ++ip) {
+                            double lineCoords[2*NDIMS_2D_PHYS];
+                            for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+                                double pa = dstLineCoords[j];
+                                double pb = dstLineCoords[NDIMS_2D_PHYS + j];
+                                lineCoords[j] = pa + parts[ip].first*(pb - pa);
+                                lineCoords[NDIMS_2D_PHYS + j] = pa + parts[ip].second*(pb - pa);
+                            }
+                            weightCalc.setLinePoints(lineCoords);
+                            weightCalc.computeProjections();
+
+                            w[0] += weightCalc.getProjection(EDGE_LO_0);
+                            w[1] += weightCalc.getProjection(EDGE_HI_0);
+                            w[2] += weightCalc.getProjection(EDGE_LO_1);
+                            w[3] += weightCalc.getProjection(EDGE_HI_1);
+                        }
                     }
                     // done
 
@@ -304,6 +316,37 @@ struct SgFlowInterp2D_type {
 
 private:
 
+    /**
+     * Claim a part of a segment
+     * @param lo start of the part, as a line parametric coordinate
+     * @param hi end of the part, as a line parametric coordinate
+     * @param claimed {start: end} of the disjoint parts claimed so far (input and output)
+     * @return the start/end values of what had not been claimed yet
+     */
+    std::vector< std::pair<double, double> > 
+    claimSegment(double lo, double hi, std::map<double, double>& claimed) const {
+
+        std::vector< std::pair<double, double> > res;
+
+        // position of the part that remains to be claimed
+        double pos = lo;
+        std::map<double, double>::const_iterator it;
+        for (it = claimed.begin(); it != claimed.end() && pos < hi; ++it) {
+            if (it->first > pos) {
+                res.push_back(std::pair<double, double>(pos, std::min(hi, it->first)));
+            }
+            pos = std::max(pos, it->second);
+        }
+        if (pos < hi) {
+            res.push_back(std::pair<double, double>(pos, hi));
+        }
+
+        for (size_t i = 0; i < res.size(); ++i) {
+            claimed.insert(res[i]);
+        }
+        return res;
+    }
+
     /** 
      * Extract the destination cell coordinates from the grid
      * @param indx cell flat index
-- 
2.43.0


From ffde063f1ca581d8d2707a528b5856132cbf3f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:06 +0000
Subject: [PATCH 18/27] fix: accuracy and robustness of SgTriangulate for
 nearly aligned points and small sizes

The tolerances were absolute: points closer than 1e-6 were merged and the
triangles smaller than 1e-12 discarded, whatever the size of the cells. Points
left out while looking for the first triangle were lost, and nearly aligned
points could fold the boundary.
---
 cpp/SgTriangulate.h | 76 ++++++++++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 28 deletions(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index d13f077..d0e9735 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -76,12 +76,17 @@ struct SgTriangulate_type {
 
     SgTriangulate_type(int numPoints, const double points[]) {
 
-        // tolerance for floating point comparisons
-        this->eps = 1.e-12;
-
         this->points.resize(2 * numPoints);
 
         SgSortByDistanceSquareFunctor sortFunc(numPoints, points);
+
+        // tolerance for floating point comparisons of areas, relative to the extent of the 
+        // set of points
+        double sizeSquare = 0;
+        for (int i = 0; i < numPoints; ++i) {
+            sizeSquare = std::max(sizeSquare, sortFunc.distanceSquareFromCenter(i));
+        }
+        this->eps = 1.e-12 * sizeSquare;
  
         // set the indices before the sort
         std::vector<size_t> sortedInds(numPoints);
@@ -104,12 +109,13 @@ struct SgTriangulate_type {
         this->removeDegenerateSegments();
 
         // create the first, non-degenerate triangle
-        size_t lastIndexOfFirstTriangle = this->makeFirstTriangle();
+        this->makeFirstTriangle();
 
-        // add the remaining points, there may be fewer points now that the degenerate
-        // points have been removed
+        // add the points, including those that were left out when looking for the first 
+        // triangle. There may be
+        // fewer points now that the degenerate points have been removed
         size_t numPointsLeft = this->points.size() / NDIMS_2D_PHYS;
-        for (size_t ip = lastIndexOfFirstTriangle + 1; ip < numPointsLeft; ++ip) {
+        for (size_t ip = 0; ip < numPointsLeft; ++ip) {
             this->addPoint(ip);
         }
     }
@@ -150,7 +156,7 @@ struct SgTriangulate_type {
                     double d = this->points[i1*NDIMS_2D_PHYS + j] - pts[i0*NDIMS_2D_PHYS + j];
                     distanceSquare += d * d;
                 }
-                degenerate = distanceSquare <= this->eps;
+                degenerate = distanceSquare <= 1.e-12 * this->eps;
             }
             if (!degenerate) {
                 for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
@@ -164,18 +170,17 @@ struct SgTriangulate_type {
 
     std::vector<size_t> getExtremaPointIndices(size_t i0, size_t i1, size_t i2) {
         // choose each point as the base point, compute the dot product of the 
-        // other vectors minus this point. If the dot product is negative then 
-        // the point is a middle point. Return the other two points
+        // other vectors minus this point. The point with the smallest dot product is  
+        // the middle point. Return the other two points
         std::vector<size_t> inds(3);
         inds[0] = i0; inds[1] = i1; inds[2] = i2;
-        double dotProduct = 1;
-        size_t ia = 0, ib = 0, ic = 0;
-        size_t j = 0;
-        while (dotProduct > this->eps && j < 3) {
-            ic = inds[j];
-            ia = inds[(j + 1) % 3];
-            ib = inds[(j + 2) % 3];
-            dotProduct = 0;
+        double minDotProduct = std::numeric_limits<double>::max();
+        std::vector<size_t> res(2);
+        for (size_t j = 0; j < 3; ++j) {
+            size_t ic = inds[j];
+            size_t ia = inds[(j + 1) % 3];
+            size_t ib = inds[(j + 2) % 3];
+            double dotProduct = 0;
             for (size_t k = 0; k < NDIMS_2D_PHYS; ++k) {
                 double da = this->points[ia*NDIMS_2D_PHYS + k];
                 da -= this->points[ic*NDIMS_2D_PHYS + k];
@@ -183,11 +188,12 @@ struct SgTriangulate_type {
                 db -= this->points[ic*NDIMS_2D_PHYS + k];
                 dotProduct += da*db;
             }
-            j++;
+            if (dotProduct < minDotProduct) {
+                minDotProduct = dotProduct;
+                res[0] = ia;
+                res[1] = ib;
+            }
         }
-        std::vector<size_t> res(2);
-        res[0] = ia;
-        res[1] = ib;
         return res;
     }
 
@@ -265,9 +271,22 @@ struct SgTriangulate_type {
         }
     }
 
+    /**
+     * Upper bound of the round off error of the area made by a point and an edge
+     */
+    double inline getAreaError(size_t ip, size_t ie0, size_t ie1) {
+        return 8 * std::numeric_limits<double>::epsilon() * 
+               sqrt(this->getDistanceSquare(ip, ie0) * this->getDistanceSquare(ip, ie1));
+    }
+
     bool inline isEdgeVisible(size_t ip, size_t ie0, size_t ie1) {
         double area = this->getParallelipipedArea(ip, ie0, ie1);
-        return area < 0;
+        return area < -this->getAreaError(ip, ie0, ie1);
+    }
+
+    bool inline isEdgeVisibleOrAligned(size_t ip, size_t ie0, size_t ie1) {
+        double area = this->getParallelipipedArea(ip, ie0, ie1);
+        return area <= this->getAreaError(ip, ie0, ie1);
     }
 
     double getConvexHullArea() const {
@@ -307,16 +326,17 @@ struct SgTriangulate_type {
             }
         }
 
-        if (iea == ieb) {
-            // no edge is visible, the point is inside
+        if (iea == ieb || nextPoint.find(ip) != nextPoint.end()) {
+            // no edge is visible, the point is inside, or the point is already there
             return;
         }
 
-        // extend to the chain of visible edges going from point iea to point ieb
-        while (nextPoint[ieb] != iea && this->isEdgeVisible(ip, ieb, nextPoint[ieb])) {
+        // extend to the chain of visible edges going from point iea to point ieb, taking in the 
+        // edges that are aligned with the point
+        while (nextPoint[ieb] != iea && this->isEdgeVisibleOrAligned(ip, ieb, nextPoint[ieb])) {
             ieb = nextPoint[ieb];
         }
-        while (prevPoint[iea] != ieb && this->isEdgeVisible(ip, prevPoint[iea], iea)) {
+        while (prevPoint[iea] != ieb && this->isEdgeVisibleOrAligned(ip, prevPoint[iea], iea)) {
             iea = prevPoint[iea];
         }
 
-- 
2.43.0


From fe49f70d1955a3dd2482d8f7cf6e676b6c169431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 19/27] fix: round off errors must not take segments out of the
 cell in SgFlowInterp2D

---
 cpp/SgFlowInterp2D.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index 4a26244..7cef5b9 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -271,6 +271,13 @@ struct SgFlowInterp2D_type {
                                 double pb = dstLineCoords[NDIMS_2D_PHYS + j];
                                 lineCoords[j] = pa + parts[ip].first*(pb - pa);
                                 lineCoords[NDIMS_2D_PHYS + j] = pa + parts[ip].second*(pb - pa);
+                                // the points are in the quad, round off errors must not take 
+                                // them out
+                                for (size_t ie = 0; ie < 2; ++ie) {
+                                    double& p = lineCoords[ie*NDIMS_2D_PHYS + j];
+                                    p = std::max(p, intersector.quadMin[j]);
+                                    p = std::min(p, intersector.quadMax[j]);
+                                }
                             }
                             weightCalc.setLinePoints(lineCoords);
                             weightCalc.computeProjections();
-- 
2.43.0


From a43778ea0d38f8982a28b263ee777e9f6dc4348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 20/27] fix: python apply, not a number in the previous result
 stayed in cells that are not covered

---
 py/conserveInterp2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/conserveInterp2D.py b/py/conserveInterp2D.py
index 3979cd2..1630333 100644
--- a/py/conserveInterp2D.py
+++ b/py/conserveInterp2D.py
@@ -76,7 +76,7 @@ class ConserveInterp2D:
 		if not self.hasInterpWeights:
 			raise RuntimeError('ERROR: must call "computeWeights" prior to invoking "apply"')
 		srcData = _toDoubles(srcData)
-		self.dstData *= 0 # initialize to zero
+		self.dstData[...] = 0 # initialize to zero, whatever the previous values
 		sigrid.so.SgConserveInterp2D_apply(ctypes.byref(self.handle),
 			                               srcData.ctypes.data_as(ctypes.POINTER(ctypes.c_double)),
 			                               self.dstData.ctypes.data_as(ctypes.POINTER(ctypes.c_double)))
-- 
2.43.0


From b6e75c50fc1839f60da88fb1a673b28d17c6c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:44 +0000
Subject: [PATCH 21/27] fix: middle longitude of the tripolar cap flips by 180
 degrees for some sizes

With 51, 83, 101, ... longitudes the index times the spacing exceeds pi/2
by roundoff, tan() changes sign and the middle column of the cap gets
longitude 180 instead of 0.
---
 cpp/SgTripolarGrid.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/SgTripolarGrid.h b/cpp/SgTripolarGrid.h
index dc3e2e4..30f052f 100644
--- a/cpp/SgTripolarGrid.h
+++ b/cpp/SgTripolarGrid.h
@@ -99,6 +99,8 @@ void getGrid(int dims[], double*** coords) {
   for (int j = this->capLatIndex; j < dims[1]; ++j) {
     for (int i = dims[0]/2; i < dims[0]; ++i) {
       pc = pc0 + (dims[0] - i - 1)*di;
+      // roundoff must not push the middle column past the pole, its longitude would flip
+      if (pc > 0.5*M_PI) pc = 0.5*M_PI;
       elc = elc0 + (1-1.e-10)*(j - this->capLatIndex)*dj;
       this->lons[i+j*dims[0]] = el0 - atan2(sin(elc), tan(pc));
       this->lats[i+j*dims[0]] = 0.5*M_PI  - 2.*atan(tan(latPerim/2.)*
-- 
2.43.0


From b20edb8ae3ab63b12a6282d78e05341452b02460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:16 +0000
Subject: [PATCH 22/27] fix: the search of the index space positions in a quad
 did not converge for large coordinates

The tolerance was 1e-10 in the unit of the coordinates, which round off does
not allow to reach in a grid in metres; SgQuadLineFlows_computeProjections then
returned an error. Make it relative to the size of the quad.
---
 cpp/SgQuadLineFlows.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cpp/SgQuadLineFlows.h b/cpp/SgQuadLineFlows.h
index b2bdf3d..6036843 100644
--- a/cpp/SgQuadLineFlows.h
+++ b/cpp/SgQuadLineFlows.h
@@ -83,6 +83,17 @@ struct SgQuadLineFlows_type {
       const int periodicity[] = {0, 0};
       this->indexFinder->setGrid(NDIMS_2D_TOPO, dims, periodicity,
                                 (const double**) &this->quadGridCoords[0]);
+
+      // the tolerance of the search is relative to the size of the quad
+      const double* lo = this->indexFinder->getSrcDomainLo();
+      const double* hi = this->indexFinder->getSrcDomainHi();
+      double size = 0, maxAbs = 0;
+      for (size_t k = 0; k < NDIMS_2D_PHYS; ++k) {
+        size = std::max(size, hi[k] - lo[k]);
+        maxAbs = std::max(maxAbs, std::max(fabs(lo[k]), fabs(hi[k])));
+      }
+      this->indexFinder->tolpos = std::max(1.e-10 * size, 
+                                           10 * std::numeric_limits<double>::epsilon() * maxAbs);
     }
 
     /**
-- 
2.43.0


From 3b3956cd85e6dd5d2aa596a0fe888adf097f413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 23/27] fix: segments along grid lines lost their flow when the
 cells are small compared to the coordinates

The parametric positions have the round off of the coordinates divided by the
length of the edges, which exceeded the tolerance of 100 epsilon: a segment
that joins two nodes of a rotated grid was outside of the cells on both sides.
---
 cpp/SgQuadLineIntersect.h | 52 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index 1e2d3dc..07bca3a 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -34,6 +34,10 @@ struct SgQuadLineIntersect_type {
     // or a point is within a triangle
     double tol;
 
+    // largest absolute values of the coordinates, round off errors are proportional to these
+    double quadMaxAbs;
+    double lineMaxAbs;
+
     // for finding intersections of edges
     double mat[2 * 2];
     double rhs[2];
@@ -54,6 +58,8 @@ struct SgQuadLineIntersect_type {
         // tolerance for floating point comparisons
         //this->tol = 1.e-10;
         this->tol = 100 * std::numeric_limits<double>::epsilon();
+        this->quadMaxAbs = 0;
+        this->lineMaxAbs = 0;
 
         this->slvr = new SgLinearSolve_type(2, 2);
 
@@ -115,11 +121,38 @@ struct SgQuadLineIntersect_type {
         }
         double* xis;
         this->slvr->getSolution(&xis);
+        // allow for round off errors in the position, these are relative to the 
+        // distance between the edges and the opposite node in parametric space
+        double dist = this->getPositionError();
+        double det = fabs(this->mat[0]*this->mat[3] - this->mat[1]*this->mat[2]);
+        double xiTol = this->tol, etaTol = this->tol, sumTol = this->tol;
+        if (det == 0) {
+            // degenerate triangle
+            return false;
+        }
+        xiTol = std::max(xiTol, dist*hypot(this->mat[1], this->mat[3])/det);
+        etaTol = std::max(etaTol, dist*hypot(this->mat[0], this->mat[2])/det);
+        sumTol = std::max(sumTol, dist*hypot(this->mat[0] - this->mat[1], this->mat[2] - this->mat[3])/det);
+        // a very thin triangle must not extend past its corners
+        for (size_t i = 0; i < 2; ++i) {
+            double lo = std::min(node0[i], std::min(node1[i], node2[i]));
+            double hi = std::max(node0[i], std::max(node1[i], node2[i]));
+            if (pt[i] < lo - dist || pt[i] > hi + dist) return false;
+        }
         // make sure the parametric coordinates are within triangle
         // (0 <= xi < 1 and 0 <= xi + eta < 1). Allow for a small tolerance
         // in case the point is right on the triangle's edges
-        return xis[0] > -this->tol && xis[0] <= 1 + this->tol && 
-                xis[1] > -this->tol && xis[0] + xis[1] <= 1 + this->tol;
+        return xis[0] > -xiTol && xis[0] <= 1 + xiTol && 
+                xis[1] > -etaTol && xis[1] <= 1 + etaTol && 
+                xis[0] + xis[1] <= 1 + sumTol;
+    }
+
+    /**
+     * Get the error made on positions because of round off
+     * @return distance
+     */
+    double getPositionError() const {
+        return this->tol * std::max(this->quadMaxAbs, this->lineMaxAbs);
     }
 
     /**
@@ -178,8 +211,15 @@ struct SgQuadLineIntersect_type {
         }
         double* xis;
         this->slvr->getSolution(&xis);
-        // make sure the parametric coordinates are within the (0-, 1+) range
-        if (xis[0] >= -this->tol && xis[0] < 1.0 + this->tol &&
+        // make sure the parametric coordinates are within the (0-, 1+) range, a line that goes
+        // through the node of two edges must intersect one of them
+        double edgeLength = hypot(this->mat[0], this->mat[2]);
+        if (edgeLength == 0) {
+            // the nodes coincide, the neighbouring edges have this point
+            return 0;
+        }
+        double xiTol = std::max(this->tol, this->getPositionError()/edgeLength);
+        if (xis[0] >= -xiTol && xis[0] < 1.0 + xiTol &&
             xis[1] >= -this->tol && xis[1] < 1.0 + this->tol) {
             // the two edges intersect
             this->intersectionLambdas.push_back(xis[1]);
@@ -198,6 +238,7 @@ struct SgQuadLineIntersect_type {
 
       // compute the corner points
       // initialize the box min/max coordinates
+      this->quadMaxAbs = 0;
       for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
         this->quadMin[j] = std::numeric_limits<double>::infinity();
         this->quadMax[j] = -std::numeric_limits<double>::infinity();
@@ -205,6 +246,7 @@ struct SgQuadLineIntersect_type {
           size_t i = NDIMS_2D_PHYS*k + j;
           this->quadMin[j] = std::min(this->quadCoords[i], this->quadMin[j]);
           this->quadMax[j] = std::max(this->quadCoords[i], this->quadMax[j]);
+          this->quadMaxAbs = std::max(fabs(this->quadCoords[i]), this->quadMaxAbs);
         }
       }
     }
@@ -219,6 +261,7 @@ struct SgQuadLineIntersect_type {
 
       // compute the corner points
       // initialize the box min/max coordinates
+      this->lineMaxAbs = 0;
       for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
         this->lineMin[j] = std::numeric_limits<double>::infinity();
         this->lineMax[j] = -std::numeric_limits<double>::infinity();
@@ -230,6 +273,7 @@ struct SgQuadLineIntersect_type {
 
           this->lineMin[j] = std::min(this->lineCoords[i], this->lineMin[j]);
           this->lineMax[j] = std::max(this->lineCoords[i], this->lineMax[j]);
+          this->lineMaxAbs = std::max(fabs(this->lineCoords[i]), this->lineMaxAbs);
         }
       }
     }
-- 
2.43.0


From 830b386449449a42e2a4e625fb54a0eedb7eb47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 24/27] fix: corners of the overlap of two quads were missed
 when a node is within round off of an edge

The crossings of the edges left out the end points, assuming that those had been
found inside of the other quad. A node can be outside by more than the tolerance
though, which is relative to the smaller side of the quad, and the overlap area was
then wrong, for instance with coordinates that are large compared to the cells.
---
 cpp/SgQuadIntersect.h | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index 0738a5a..8e653cb 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -85,6 +85,14 @@ struct SgQuadIntersect_type {
       return overlap;
     }
 
+    /**
+     * Check if all the elements of the matrix are zero
+     * @return true if they are
+     */
+    inline bool isMatrixZero() const {
+        return this->mat[0] == 0 && this->mat[1] == 0 && this->mat[2] == 0 && this->mat[3] == 0;
+    }
+
     /**
      * Check if a point is inside a triangle
      * @param pt the target point
@@ -104,6 +112,10 @@ struct SgQuadIntersect_type {
             this->mat[2*i + 0] = node1[i] - node0[i];
             this->mat[2*i + 1] = node2[i] - node0[i];
         }
+        if (this->isMatrixZero()) {
+            // the nodes coincide, the solver would return a null solution
+            return false;
+        }
         this->slvr->setMatrix(this->mat);
         this->slvr->setRightHandSide(this->rhs);
         int ier = this->slvr->solve();
@@ -193,6 +205,10 @@ struct SgQuadIntersect_type {
             this->mat[2*i + 0] = edge1Point1[i] - edge1Point0[i];
             this->mat[2*i + 1] = edge2Point0[i] - edge2Point1[i];
         }
+        if (this->isMatrixZero()) {
+            // both edges are degenerate, the solver would return a null solution
+            return 0;
+        }
         this->slvr->setMatrix(this->mat);
         this->slvr->setRightHandSide(this->rhs);
         int ier = this->slvr->solve();
@@ -203,11 +219,12 @@ struct SgQuadIntersect_type {
         }
         double* xis;
         this->slvr->getSolution(&xis);
-        // make sure the parametric coordinates are within the (0+, 1-) range
-        // no need to include the end points since they are already taken into 
-        // account when looking for nodes inside cell
-        if (xis[0] > this->tol && xis[0] <= 1 - this->tol && 
-            xis[1] > this->tol && xis[1] <= 1 - this->tol) {
+        // make sure the parametric coordinates are within the [0, 1] range, to within round
+        // off. The end points may already have been found when looking for nodes inside 
+        // cell but need not have, a node that is on an edge can be outside of the cell by 
+        // more than the tolerance
+        if (xis[0] >= -this->tol && xis[0] <= 1 + this->tol && 
+            xis[1] >= -this->tol && xis[1] <= 1 + this->tol) {
             // the two edges intersect
             for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
                 pt[j] = edge1Point0[j] + xis[0]*(edge1Point1[j] - edge1Point0[j]);
-- 
2.43.0


From 2635bbb15321eecc2d40ece3dd4ff677c0bb24a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:19 +0000
Subject: [PATCH 25/27] fix: SgFindPointInCell_getErrorHistory took the front
 of an empty vector when no iteration was done

---
 cpp/SgFindPointInCell.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index 661cfb1..b9e433c 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -291,7 +291,8 @@ std::vector<double> getIndices() const {
  */
 void getErrorHistory(int* niter, double* errorHistory[]) {
     *niter = (int) this->errorHistory.size();
-    *errorHistory = &this->errorHistory.front();
+    // there is no front element if no iteration was done
+    *errorHistory = (this->errorHistory.empty()? NULL: &this->errorHistory.front());
 }
 
 /**
-- 
2.43.0


From 83fec36688d34ee8ad3b73b9c956171aee2845b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 26/27] fix: wrong cells under a polygon in grids of small
 extent

The tolerance of the search for the vertices was 1e-6 in the unit of the
coordinates, more than the cells of a small grid.
---
 cpp/SgFindOverlappingCells2D.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cpp/SgFindOverlappingCells2D.h b/cpp/SgFindOverlappingCells2D.h
index f8d73ba..70ec71a 100644
--- a/cpp/SgFindOverlappingCells2D.h
+++ b/cpp/SgFindOverlappingCells2D.h
@@ -11,6 +11,8 @@
 #include <vector>
 #include <algorithm>
 #include <cstdio> // size_t
+#include <cmath>
+#include <limits>
 
 struct SgFindOverlappingCells2D_type {
 
@@ -82,6 +84,17 @@ struct SgFindOverlappingCells2D_type {
             this->srcCellProdDims[j] = this->srcCellProdDims[j + 1] * (dims[j + 1] - 1);
           }
         this->pointFinder->setGrid(2, dims, periodicity, coords);
+
+        // the tolerance of the search is relative to the size of the grid
+        const double* lo = this->pointFinder->getSrcDomainLo();
+        const double* hi = this->pointFinder->getSrcDomainHi();
+        double size = 0, maxAbs = 0;
+        for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+            size = std::max(size, hi[j] - lo[j]);
+            maxAbs = std::max(maxAbs, std::max(std::fabs(lo[j]), std::fabs(hi[j])));
+        }
+        this->pointFinder->tolpos = std::max(1.e-9 * size, 
+                                             10 * std::numeric_limits<double>::epsilon() * maxAbs);
     }
 
     /** 
-- 
2.43.0


From e0768a069a6aaa69b8b9cc34665a419bd0b0f5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 27/27] fix: gap between the parts of a segment nearly parallel
 to a cell edge

The two cells that share an edge went through it in opposite directions and
so found slightly different crossing points. The difference is round off
divided by the angle, part of the segment was lost.
---
 cpp/SgQuadLineIntersect.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index 07bca3a..652cded 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -194,6 +194,13 @@ struct SgQuadLineIntersect_type {
                                             const double edgePoint1[],
                                             const double linePoint0[],
                                             const double linePoint1[]) {
+        // the cells on either side of an edge must agree on where the line crosses it, even 
+        // if the line is nearly parallel to the edge. Go through the edge in the same direction 
+        // for both of them
+        if (edgePoint1[0] < edgePoint0[0] || 
+            (edgePoint1[0] == edgePoint0[0] && edgePoint1[1] < edgePoint0[1])) {
+            std::swap(edgePoint0, edgePoint1);
+        }
         // edgePoint0 + xi*(edgePoint1 - edgePoint0) = linePoint0 + eta*(linePoint1 - linePoint0)
         for (size_t i = 0; i < 2; ++i) {
             this->rhs[i] = linePoint0[i] - edgePoint0[i];
-- 
2.43.0

