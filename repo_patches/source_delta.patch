From be9b6880bb5154912fabe0c6cd4f6e7f0eef6720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:30 +0000
Subject: [PATCH 01/99] fix: no conversion of a negative double to an unsigned
 number of points in Splines::ComputeSplineLength

---
 libs/MeshKernel/src/Splines.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Splines.cpp b/libs/MeshKernel/src/Splines.cpp
index bf22a2b..f905bef 100644
--- a/libs/MeshKernel/src/Splines.cpp
+++ b/libs/MeshKernel/src/Splines.cpp
@@ -368,8 +368,12 @@ double Splines::ComputeSplineLength(UInt index,
     }
 
     double delta = assignedDelta;
-    UInt numPoints = static_cast<UInt>(endAdimensionalCoordinate / delta) + 1;
-    if (delta < 0.0)
+    UInt numPoints = 0;
+    if (delta >= 0.0)
+    {
+        numPoints = static_cast<UInt>(endAdimensionalCoordinate / delta) + 1;
+    }
+    else
     {
         delta = 1.0 / static_cast<double>(numSamples);
         // TODO: Refactor or at least document the calculation of "numPoints"
-- 
2.43.0


From 9f6e080f08421896c0e7835b2e6c45eef5c4bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:13 +0000
Subject: [PATCH 02/99] fix: merging two nodes with together more than the
 maximum number of edges per node wrote out of bounds

---
 libs/MeshKernel/src/Mesh.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 9eb78f7..9f2e755 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -353,8 +353,8 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
     }
 
     // add all valid edges starting at secondNode
-    std::vector<UInt> secondNodeEdges(m_maximumNumberOfEdgesPerNode, constants::missing::uintValue);
-    UInt numSecondNodeEdges = 0;
+    std::vector<UInt> secondNodeEdges;
+    secondNodeEdges.reserve(m_nodesNumEdges[firstNodeIndex] + m_nodesNumEdges[secondNodeIndex]);
 
     for (UInt n = 0; n < m_nodesNumEdges[secondNodeIndex]; n++)
     {
@@ -362,8 +362,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
 
         if (m_edges[edgeIndex].first != constants::missing::uintValue)
         {
-            secondNodeEdges[numSecondNodeEdges] = edgeIndex;
-            numSecondNodeEdges++;
+            secondNodeEdges.push_back(edgeIndex);
         }
     }
 
@@ -374,7 +373,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
 
         if (m_edges[edgeIndex].first != constants::missing::uintValue)
         {
-            secondNodeEdges[numSecondNodeEdges] = edgeIndex;
+            secondNodeEdges.push_back(edgeIndex);
 
             if (m_edges[edgeIndex].first == firstNodeIndex)
             {
@@ -384,14 +383,12 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
             {
                 undoAction->Add(ResetEdge(edgeIndex, {m_edges[edgeIndex].first, secondNodeIndex}));
             }
-
-            numSecondNodeEdges++;
         }
     }
 
     // re-assign edges to second node
-    m_nodesEdges[secondNodeIndex] = std::vector<UInt>(secondNodeEdges.begin(), secondNodeEdges.begin() + numSecondNodeEdges);
-    m_nodesNumEdges[secondNodeIndex] = numSecondNodeEdges;
+    m_nodesNumEdges[secondNodeIndex] = static_cast<UInt>(secondNodeEdges.size());
+    m_nodesEdges[secondNodeIndex] = std::move(secondNodeEdges);
 
     // remove edges to first node
     m_nodesEdges[firstNodeIndex] = std::vector<UInt>(0);
-- 
2.43.0


From fc2f03c2877dfc1ef2d151622ca1dcc551f13ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:13 +0000
Subject: [PATCH 03/99] fix: exclude invalid nodes when merging nodes in a
 polygon, the wrong points were removed from the search tree

---
 libs/MeshKernel/src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 9f2e755..a91a281 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -414,7 +414,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
     UInt filteredNodeCount = 0;
     for (UInt i = 0; i < numNodes; ++i)
     {
-        if (isNodeInPolygon[i])
+        if (isNodeInPolygon[i] && m_nodes[i].IsValid())
         {
             filteredNodes[filteredNodeCount] = m_nodes[i];
             originalNodeIndices[filteredNodeCount] = i;
-- 
2.43.0


From 21edfa37619693b4fea96faee09cb1bd135f11fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:13 +0000
Subject: [PATCH 04/99] fix: the nodes invalidated by merging nodes in a
 polygon are restored by undo

---
 libs/MeshKernel/src/Mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index a91a281..dedab41 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -431,7 +431,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
     std::unique_ptr<CompoundUndoAction> undoAction = CompoundUndoAction::Create();
     filteredNodes.resize(filteredNodeCount);
 
-    AdministrateNodesEdges();
+    AdministrateNodesEdges(undoAction.get());
 
     // Update the R-Tree of the mesh nodes
     const auto nodesRtree = RTreeFactory::Create(m_projection);
@@ -458,7 +458,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
         }
     }
 
-    AdministrateNodesEdges();
+    AdministrateNodesEdges(undoAction.get());
     return undoAction;
 }
 
-- 
2.43.0


From b39f12ed29c10818266fcb2e0ece20f751a35e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:13 +0000
Subject: [PATCH 05/99] fix: the minimum edge length read out of bounds for
 deleted edges

---
 libs/MeshKernel/src/Mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index dedab41..b437b0a 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -572,6 +572,11 @@ double Mesh::ComputeMinEdgeLength(const Polygons& polygon) const
     const auto isNodeInPolygon = IsLocationInPolygon(polygon, Location::Nodes);
     for (UInt e = 0; e < numEdges; e++)
     {
+        if (!IsValidEdge(e))
+        {
+            continue;
+        }
+
         const auto& [firstNode, secondNode] = m_edges[e];
         if (isNodeInPolygon[firstNode] || isNodeInPolygon[secondNode])
         {
-- 
2.43.0


From a7141faf316e84e14ec4dee43ff4213cf8a715c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:39 +0000
Subject: [PATCH 06/99] fix: a search tree built for one location with another
 bounding box was reused for the other locations

---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp    | 18 ++++++++++++------
 libs/MeshKernel/src/Mesh.cpp                   | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 5ed31d5..b78e49b 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -250,34 +250,40 @@ void CurvilinearGrid::Delete(std::shared_ptr<Polygons> polygons, UInt polygonInd
 
 void CurvilinearGrid::BuildTree(Location location, const BoundingBox& boundingBox)
 {
+    if (m_boundingBoxCache != boundingBox)
+    {
+        // The trees of all locations have been built with the cached bounding box
+        m_nodesRTreeRequiresUpdate = true;
+        m_edgesRTreeRequiresUpdate = true;
+        m_facesRTreeRequiresUpdate = true;
+        m_boundingBoxCache = boundingBox;
+    }
+
     switch (location)
     {
     case Location::Faces:
-        if (m_facesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_facesRTreeRequiresUpdate)
         {
             const auto faceCenters = ComputeFaceCenters();
             m_RTrees.at(Location::Faces)->BuildTree(faceCenters, boundingBox);
             m_facesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Nodes:
-        if (m_nodesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_nodesRTreeRequiresUpdate)
         {
             const auto nodes = ComputeNodes();
             m_RTrees.at(Location::Nodes)->BuildTree(nodes, boundingBox);
             m_nodesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Edges:
-        if (m_edgesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_edgesRTreeRequiresUpdate)
         {
             m_edges = ComputeEdges();
             const auto edgeCenters = ComputeEdgesCenters();
             m_RTrees.at(Location::Edges)->BuildTree(edgeCenters, boundingBox);
             m_edgesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Unknown:
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index b437b0a..e48a395 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -1153,32 +1153,38 @@ bool Mesh::IsValidEdge(const UInt edgeId) const
 
 void Mesh::BuildTree(Location location, const BoundingBox& boundingBox)
 {
+    if (m_boundingBoxCache != boundingBox)
+    {
+        // The trees of all locations have been built with the cached bounding box
+        m_nodesRTreeRequiresUpdate = true;
+        m_edgesRTreeRequiresUpdate = true;
+        m_facesRTreeRequiresUpdate = true;
+        m_boundingBoxCache = boundingBox;
+    }
+
     switch (location)
     {
     case Location::Faces:
-        if (m_facesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_facesRTreeRequiresUpdate)
         {
             Administrate();
             m_RTrees.at(Location::Faces)->BuildTree(m_facesCircumcenters, boundingBox);
             m_facesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Nodes:
-        if (m_nodesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_nodesRTreeRequiresUpdate)
         {
             m_RTrees.at(Location::Nodes)->BuildTree(m_nodes, boundingBox);
             m_nodesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Edges:
-        if (m_edgesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_edgesRTreeRequiresUpdate)
         {
             ComputeEdgesCenters();
             m_RTrees.at(Location::Edges)->BuildTree(m_edgesCenters, boundingBox);
             m_edgesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Unknown:
-- 
2.43.0


From 36a61712b3639b473a5b542017699fdef033a148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:04 +0000
Subject: [PATCH 07/99] fix: search trees of a mesh were not rebuilt after all
 modifications of its nodes and edges

---
 libs/MeshKernel/src/Mesh.cpp | 37 ++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index e48a395..f60ae0c 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -172,6 +172,7 @@ void Mesh::InvalidateUnConnectedNodes(const std::vector<bool>& connectedNodes, U
         {
             if (undoAction == nullptr)
             {
+                m_nodesRTreeRequiresUpdate = m_nodesRTreeRequiresUpdate || m_nodes[n].IsValid();
                 m_nodes[n].SetInvalid();
             }
             else
@@ -399,6 +400,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
 
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     return undoAction;
 }
 
@@ -512,6 +514,9 @@ void Mesh::SetNode(const UInt nodeId, const Point& newValue)
     }
 
     m_nodes[nodeId] = newValue;
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 std::unique_ptr<meshkernel::DeleteEdgeAction> Mesh::DeleteEdge(UInt edge)
@@ -754,6 +759,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
 
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     return undoAction;
 }
 
@@ -1007,6 +1013,7 @@ Mesh& Mesh::operator+=(Mesh const& rhs)
 
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 
     Administrate();
 
@@ -1200,12 +1207,14 @@ void Mesh::CommitAction(const AddNodeAction& undoAction)
     m_nodes[undoAction.NodeId()] = undoAction.Node();
     m_nodesNumEdges[undoAction.NodeId()] = 0;
     m_nodesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(const AddEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.GetEdge();
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(const ResetNodeAction& undoAction)
@@ -1213,40 +1222,53 @@ void Mesh::CommitAction(const ResetNodeAction& undoAction)
     m_nodes[undoAction.NodeId()] = undoAction.UpdatedNode();
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(const ResetEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.UpdatedEdge();
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(const DeleteEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = {constants::missing::uintValue, constants::missing::uintValue};
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(const DeleteNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = {constants::missing::doubleValue, constants::missing::doubleValue};
     m_nodesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(NodeTranslationAction& undoAction)
 {
     undoAction.Swap(m_nodes);
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(MeshConversionAction& undoAction)
 {
     undoAction.Swap(m_nodes, m_projection);
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(FullUnstructuredGridUndo& undoAction)
 {
     undoAction.Swap(m_nodes, m_edges);
     Administrate();
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(const AddNodeAction& undoAction)
@@ -1254,12 +1276,14 @@ void Mesh::RestoreAction(const AddNodeAction& undoAction)
     m_nodes[undoAction.NodeId()] = Point(constants::missing::doubleValue, constants::missing::doubleValue);
     m_nodesNumEdges[undoAction.NodeId()] = 0;
     m_nodesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(const AddEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = {constants::missing::uintValue, constants::missing::uintValue};
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(const ResetNodeAction& undoAction)
@@ -1267,38 +1291,51 @@ void Mesh::RestoreAction(const ResetNodeAction& undoAction)
     m_nodes[undoAction.NodeId()] = undoAction.InitialNode();
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(const ResetEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.InitialEdge();
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(const DeleteEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.GetEdge();
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(const DeleteNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.Node();
     m_nodesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(NodeTranslationAction& undoAction)
 {
     undoAction.Swap(m_nodes);
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(MeshConversionAction& undoAction)
 {
     undoAction.Swap(m_nodes, m_projection);
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(FullUnstructuredGridUndo& undoAction)
 {
     undoAction.Swap(m_nodes, m_edges);
     Administrate();
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
-- 
2.43.0


From e1546d3abcc5098840948d4b1af02d911293f177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:04 +0000
Subject: [PATCH 08/99] fix: moving a node to its own position made it NaN,
 invalid nodes could become valid by moving a node

---
 libs/MeshKernel/src/Mesh.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index f60ae0c..b284323 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -728,7 +728,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
     const auto dy = GetDy(nodeToMove, newPoint, m_projection);
 
     const double distanceNodeToMoveFromNewPointSquared = dx * dx + dy * dy;
-    const double distanceNodeToMoveFromNewPointSquaredInv = 1.0 / distanceNodeToMoveFromNewPointSquared;
+    const double distanceNodeToMoveFromNewPointSquaredInv = distanceNodeToMoveFromNewPointSquared > 0.0 ? 1.0 / distanceNodeToMoveFromNewPointSquared : 0.0;
 
     std::vector<UInt> movedNodeIndex;
     std::vector<Vector> nodeDisplacement;
@@ -737,6 +737,11 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
 
     for (UInt n = 0; n < GetNumNodes(); ++n)
     {
+        if (!m_nodes[n].IsValid())
+        {
+            continue;
+        }
+
         const auto nodeDx = GetDx(m_nodes[n], nodeToMove, m_projection);
         const auto nodeDy = GetDy(m_nodes[n], nodeToMove, m_projection);
         const double distanceCurrentNodeFromNewPointSquared = nodeDx * nodeDx + nodeDy * nodeDy;
-- 
2.43.0


From fd479b4bcf19e4ed31a767a7aa2535a3bf540cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:49 +0000
Subject: [PATCH 09/99] fix: gridded sample interpolation at edges read out of
 bounds for deleted edges and averaged missing values

---
 .../BilinearInterpolationOnGriddedSamples.hpp         | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp b/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
index 73480e9..70e5ec9 100644
--- a/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
+++ b/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
@@ -160,7 +160,18 @@ namespace meshkernel
         std::ranges::fill(m_edgeResults, constants::missing::doubleValue);
         for (UInt e = 0; e < numEdges; ++e)
         {
+            if (!m_mesh.IsValidEdge(e))
+            {
+                continue;
+            }
+
             const auto& [first, second] = m_mesh.GetEdge(e);
+
+            if (m_nodeResults[first] == constants::missing::doubleValue || m_nodeResults[second] == constants::missing::doubleValue)
+            {
+                continue;
+            }
+
             m_edgeResults[e] = 0.5 * (m_nodeResults[first] + m_nodeResults[second]);
         }
 
-- 
2.43.0


From 822e3d0ec0818bb36603ea01bd3b9f04c4e713d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:49 +0000
Subject: [PATCH 10/99] fix: gridded sample interpolation extrapolated within
 one cell before the origin

---
 .../BilinearInterpolationOnGriddedSamples.hpp        | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp b/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
index 70e5ec9..ba1e3bb 100644
--- a/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
+++ b/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
@@ -190,17 +190,19 @@ namespace meshkernel
         double fractionalColumnIndex = GetFractionalNumberOfColumns(point);
         double fractionalRowIndex = GetFractionalNumberOfRows(point);
 
+        // outside of the gridded samples
+        if (fractionalColumnIndex < 0.0 || fractionalColumnIndex >= static_cast<double>(m_numXCoord) ||
+            fractionalRowIndex < 0.0 || fractionalRowIndex >= static_cast<double>(m_numYCoord))
+        {
+            return constants::missing::doubleValue;
+        }
+
         double columnIndexTmp;
         fractionalColumnIndex = std::modf(fractionalColumnIndex, &columnIndexTmp);
 
         double rowIndexTmp;
         fractionalRowIndex = std::modf(fractionalRowIndex, &rowIndexTmp);
 
-        if (columnIndexTmp < 0 || rowIndexTmp < 0)
-        {
-            return constants::missing::doubleValue;
-        }
-
         UInt const columnIndex = static_cast<UInt>(columnIndexTmp);
         UInt const rowIndex = static_cast<UInt>(rowIndexTmp);
 
-- 
2.43.0


From a97d4b8006f554d565089d40a452532d6826cc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:11 +0000
Subject: [PATCH 11/99] fix: smoother read out of bounds when the left face of
 an edge is not a shared face

---
 libs/MeshKernel/src/Smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Smoother.cpp b/libs/MeshKernel/src/Smoother.cpp
index 8b0b220..95fc9d1 100644
--- a/libs/MeshKernel/src/Smoother.cpp
+++ b/libs/MeshKernel/src/Smoother.cpp
@@ -322,7 +322,7 @@ void Smoother::ComputeOperatorsNode(UInt currentNode)
         const auto leftFace = m_mesh.m_edgesFaces[edgeIndex][0];
         faceLeftIndex = FindIndex(m_topologySharedFaces[currentTopology], leftFace);
 
-        if (m_topologySharedFaces[currentTopology][faceLeftIndex] != leftFace)
+        if (faceLeftIndex == constants::missing::uintValue || m_topologySharedFaces[currentTopology][faceLeftIndex] != leftFace)
         {
             throw std::invalid_argument(std::string("Smoother::ComputeOperatorsNode: Face could not be found,") +
                                         std::string("this happens when the face is outside of the polygon or maximumNumberOfEdgesPerFace is too low"));
-- 
2.43.0


From 818d079c3bdff7a01ec24d2a10e468f5f51c60bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:11 +0000
Subject: [PATCH 12/99] fix: no out of bounds read when an edge has no opposite
 edge in the next element when splitting a row

---
 libs/MeshKernel/src/SplitRowColumnOfMesh.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp b/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
index 16353ef..5520403 100644
--- a/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
+++ b/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
@@ -106,6 +106,12 @@ meshkernel::UInt meshkernel::SplitRowColumnOfMesh::GetNextElement(const Mesh2D&
     }
 
     UInt oppositeEdgeId = OppositeEdgeId(mesh, elementId, edgeId);
+
+    if (!IsValid(oppositeEdgeId))
+    {
+        return constants::missing::uintValue;
+    }
+
     UInt nextElementId = Neighbour(mesh.m_edgesFaces[oppositeEdgeId], elementId);
 
     return nextElementId;
-- 
2.43.0


From a7a5410f3223c02a0594505e09d3e2d4e0fe08a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:33 +0000
Subject: [PATCH 13/99] fix: the search trees of a mesh kept the metric of the
 old projection after a conversion

---
 libs/MeshKernel/include/MeshKernel/Mesh.hpp |  1 +
 libs/MeshKernel/src/Mesh.cpp                | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/Mesh.hpp b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
index bfb1da2..75cc3a7 100644
--- a/libs/MeshKernel/include/MeshKernel/Mesh.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
@@ -504,6 +504,7 @@ namespace meshkernel
         bool m_edgesRTreeRequiresUpdate = true;                            ///< m_edgesRTree requires an update
         bool m_facesRTreeRequiresUpdate = true;                            ///< m_facesRTree requires an update
         std::unordered_map<Location, std::unique_ptr<RTreeBase>> m_RTrees; ///< The RTrees to use
+        Projection m_RTreesProjection = Projection::cartesian;             ///< The projection the RTrees have been created for
         BoundingBox m_boundingBoxCache;                                    ///< Caches the last bounding box used for selecting the locations
 
         /// @brief Set nodes and edges that are not connected to be invalid.
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index b284323..c9ce67c 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -50,6 +50,7 @@ Mesh::Mesh(Projection projection) : m_projection(projection)
     m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
+    m_RTreesProjection = m_projection;
 }
 
 Mesh::Mesh(const std::vector<Edge>& edges,
@@ -62,6 +63,7 @@ Mesh::Mesh(const std::vector<Edge>& edges,
     m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
+    m_RTreesProjection = m_projection;
     DeleteInvalidNodesAndEdges();
 }
 
@@ -1174,6 +1176,18 @@ void Mesh::BuildTree(Location location, const BoundingBox& boundingBox)
         m_boundingBoxCache = boundingBox;
     }
 
+    if (m_RTreesProjection != m_projection)
+    {
+        // The mesh has been converted to another projection
+        m_RTrees.insert_or_assign(Location::Nodes, RTreeFactory::Create(m_projection));
+        m_RTrees.insert_or_assign(Location::Edges, RTreeFactory::Create(m_projection));
+        m_RTrees.insert_or_assign(Location::Faces, RTreeFactory::Create(m_projection));
+        m_RTreesProjection = m_projection;
+        m_nodesRTreeRequiresUpdate = true;
+        m_edgesRTreeRequiresUpdate = true;
+        m_facesRTreeRequiresUpdate = true;
+    }
+
     switch (location)
     {
     case Location::Faces:
-- 
2.43.0


From 300752b8d5cb3606b2beca4805069f783b307153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:33 +0000
Subject: [PATCH 14/99] fix: undo of projection conversion, circular grid
 generation and directional smoothing did not restore the state

---
 libs/MeshKernelApi/src/MKStateUndoAction.cpp |  1 +
 libs/MeshKernelApi/src/MeshKernel.cpp        | 21 ++++++++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/libs/MeshKernelApi/src/MKStateUndoAction.cpp b/libs/MeshKernelApi/src/MKStateUndoAction.cpp
index c0ce513..3732a1e 100644
--- a/libs/MeshKernelApi/src/MKStateUndoAction.cpp
+++ b/libs/MeshKernelApi/src/MKStateUndoAction.cpp
@@ -54,6 +54,7 @@ void meshkernelapi::MKStateUndoAction::SwapContents()
     std::swap(m_mkState.m_network1d, m_mkStateReference.m_network1d);
     std::swap(m_mkState.m_contacts, m_mkStateReference.m_contacts);
     std::swap(m_mkState.m_curvilinearGrid, m_mkStateReference.m_curvilinearGrid);
+    std::swap(m_mkState.m_projection, m_mkStateReference.m_projection);
 }
 
 void meshkernelapi::MKStateUndoAction::DoCommit()
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 6435847..062b68e 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1093,13 +1093,21 @@ namespace meshkernelapi
                 if (sourceProjection == meshkernel::Projection::cartesian)
                 {
                     meshkernel::ConvertCartesianToSpherical conversion(zoneString);
-                    meshKernelUndoStack.Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion), meshKernelId);
+                    // The projection of the state has to be restored too
+                    auto undoAction = meshkernel::CompoundUndoAction::Create();
+                    undoAction->Add(MKStateUndoAction::Create(meshKernelState[meshKernelId]));
+                    undoAction->Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion));
+                    meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
                     meshKernelState[meshKernelId].m_projection = conversion.TargetProjection();
                 }
                 else if (sourceProjection == meshkernel::Projection::spherical)
                 {
                     meshkernel::ConvertSphericalToCartesian conversion(zoneString);
-                    meshKernelUndoStack.Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion), meshKernelId);
+                    // The projection of the state has to be restored too
+                    auto undoAction = meshkernel::CompoundUndoAction::Create();
+                    undoAction->Add(MKStateUndoAction::Create(meshKernelState[meshKernelId]));
+                    undoAction->Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion));
+                    meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
                     meshKernelState[meshKernelId].m_projection = conversion.TargetProjection();
                 }
                 else
@@ -4286,8 +4294,8 @@ namespace meshkernelapi
             }
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
-            *meshKernelState[meshKernelId].m_curvilinearGrid = meshkernel::CurvilinearGridGenerateCircularGrid::Compute(parameters,
-                                                                                                                        meshKernelState[meshKernelId].m_projection);
+            meshKernelState[meshKernelId].m_curvilinearGrid = std::make_shared<meshkernel::CurvilinearGrid>(meshkernel::CurvilinearGridGenerateCircularGrid::Compute(parameters,
+                                                                                                                                                                   meshKernelState[meshKernelId].m_projection));
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -4510,8 +4518,9 @@ namespace meshkernelapi
             meshkernel::Point const lowerLeft{xLowerLeftCornerSmoothingArea, yLowerLeftCornerSmoothingArea};
             meshkernel::Point const upperRight{xUpperRightCornerSmootingArea, yUpperRightCornerSmootingArea};
 
-            // Execute
-            meshkernel::CurvilinearGridSmoothing curvilinearGridSmoothing(*meshKernelState[meshKernelId].m_curvilinearGrid, smoothingIterations);
+            // Execute, on a copy such that the original grid can be restored
+            meshkernel::CurvilinearGrid gridToSmooth(*meshKernelState[meshKernelId].m_curvilinearGrid);
+            meshkernel::CurvilinearGridSmoothing curvilinearGridSmoothing(gridToSmooth, smoothingIterations);
 
             curvilinearGridSmoothing.SetLine(firstNode, secondNode);
             curvilinearGridSmoothing.SetBlock(lowerLeft, upperRight);
-- 
2.43.0


From 645f47f357eedb0563b9d9fbec9b410e85c66b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:33 +0000
Subject: [PATCH 15/99] fix: undo of curvilinear grid edits did not restore
 invalidated nodes, copies lost offsets and projection

---
 .../CurvilinearGrid/CurvilinearGrid.hpp       | 15 +++-
 .../src/CurvilinearGrid/CurvilinearGrid.cpp   | 82 ++++++++++++++-----
 .../CurvilinearGridLineMirror.cpp             |  6 +-
 .../CurvilinearGridOrthogonalization.cpp      |  6 +-
 .../CurvilinearGridSmoothing.cpp              | 30 +++++--
 5 files changed, 100 insertions(+), 39 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
index 94e9f69..a0fbb5f 100644
--- a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
+++ b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
@@ -403,12 +403,20 @@ namespace meshkernel
         /// @brief Get the array of nodes at an m-dimension index
         /// @param [in] m the m-dimension index
         /// @return a vector of N nodes
-        std::vector<Point> GetNodeVectorAtM(UInt m) const { return lin_alg::MatrixRowToSTLVector(m_gridNodes, m + m_startOffset.m_m); }
+        std::vector<Point> GetNodeVectorAtM(UInt m) const
+        {
+            const auto row = lin_alg::MatrixRowToSTLVector(m_gridNodes, m + m_startOffset.m_n);
+            return {row.begin() + m_startOffset.m_m, row.end() - m_endOffset.m_m};
+        }
 
         /// @brief Get the array of nodes at an n-dimension index
         /// @param [in] n the n-dimension index
         /// @return a vector of M nodes
-        std::vector<Point> GetNodeVectorAtN(UInt n) const { return lin_alg::MatrixColToSTLVector(m_gridNodes, n + m_startOffset.m_n); }
+        std::vector<Point> GetNodeVectorAtN(UInt n) const
+        {
+            const auto column = lin_alg::MatrixColToSTLVector(m_gridNodes, n + m_startOffset.m_m);
+            return {column.begin() + m_startOffset.m_n, column.end() - m_endOffset.m_n};
+        }
 
         /// @brief Compute a sequence of one or more outer boundary polygons separated by geometry separators
         /// @param[in]  lowerLeft   The node index of the lower left corner
@@ -451,6 +459,9 @@ namespace meshkernel
         void CommitAction(const ResetCurvilinearNodeAction& undoAction);
 
     private:
+        /// @brief Assign the types of the grid nodes, without invalidating nodes.
+        void AssignGridNodeTypes();
+
         /// @brief Remove invalid nodes.
         /// This function is recursive
         /// @param[in] invalidNodesToRemove Whether there are still invalid nodes to remove
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index b78e49b..8009b8e 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -39,23 +39,27 @@
 using meshkernel::CurvilinearGrid;
 using meshkernel::CurvilinearGridNodeIndices;
 
-CurvilinearGrid::CurvilinearGrid(const CurvilinearGrid& grid) : m_projection(Projection::cartesian),
+CurvilinearGrid::CurvilinearGrid(const CurvilinearGrid& grid) : m_projection(grid.m_projection),
                                                                 m_gridNodes(grid.m_gridNodes),
                                                                 m_gridFacesMask(grid.m_gridFacesMask),
                                                                 m_gridNodesTypes(grid.m_gridNodesTypes),
-                                                                m_gridIndices(grid.m_gridIndices)
+                                                                m_gridIndices(grid.m_gridIndices),
+                                                                m_startOffset(grid.m_startOffset),
+                                                                m_endOffset(grid.m_endOffset)
 {
     m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
 }
 
-CurvilinearGrid::CurvilinearGrid(CurvilinearGrid&& grid) noexcept : m_projection(Projection::cartesian),
+CurvilinearGrid::CurvilinearGrid(CurvilinearGrid&& grid) noexcept : m_projection(grid.m_projection),
                                                                     m_gridNodes(std::move(grid.m_gridNodes)),
                                                                     m_gridFacesMask(std::move(grid.m_gridFacesMask)),
                                                                     m_gridNodesTypes(std::move(grid.m_gridNodesTypes)),
                                                                     m_gridIndices(std::move(grid.m_gridIndices)),
-                                                                    m_RTrees(std::move(grid.m_RTrees)) {}
+                                                                    m_RTrees(std::move(grid.m_RTrees)),
+                                                                    m_startOffset(std::exchange(grid.m_startOffset, CurvilinearGridNodeIndices(0, 0))),
+                                                                    m_endOffset(std::exchange(grid.m_endOffset, CurvilinearGridNodeIndices(0, 0))) {}
 
 CurvilinearGrid::CurvilinearGrid(Projection projection) : m_projection(projection)
 {
@@ -117,9 +121,9 @@ CurvilinearGrid& CurvilinearGrid::operator=(const CurvilinearGrid& copy)
         m_edgesRTreeRequiresUpdate = true;
         m_facesRTreeRequiresUpdate = true;
 
-        m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
-        m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
-        m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
+        m_RTrees.insert_or_assign(Location::Nodes, RTreeFactory::Create(m_projection));
+        m_RTrees.insert_or_assign(Location::Edges, RTreeFactory::Create(m_projection));
+        m_RTrees.insert_or_assign(Location::Faces, RTreeFactory::Create(m_projection));
 
         m_boundingBoxCache = copy.m_boundingBoxCache;
 
@@ -127,8 +131,6 @@ CurvilinearGrid& CurvilinearGrid::operator=(const CurvilinearGrid& copy)
 
         m_startOffset = copy.m_startOffset;
         m_endOffset = copy.m_endOffset;
-
-        SetGridNodes(m_gridNodes);
     }
 
     return *this;
@@ -142,6 +144,8 @@ void CurvilinearGrid::SetGridNodes(const lin_alg::Matrix<Point>& gridNodes)
     }
 
     m_gridNodes = gridNodes;
+    m_startOffset = {0, 0};
+    m_endOffset = {0, 0};
 
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
@@ -158,6 +162,8 @@ void CurvilinearGrid::SetGridNodes(lin_alg::Matrix<Point>&& gridNodes)
     }
 
     m_gridNodes = std::move(gridNodes);
+    m_startOffset = {0, 0};
+    m_endOffset = {0, 0};
 
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
@@ -439,6 +445,11 @@ void CurvilinearGrid::RemoveInvalidNodes(bool invalidNodesToRemove)
 void CurvilinearGrid::ComputeGridNodeTypes()
 {
     RemoveInvalidNodes(true);
+    AssignGridNodeTypes();
+}
+
+void CurvilinearGrid::AssignGridNodeTypes()
+{
     lin_alg::ResizeAndFillMatrix(m_gridNodesTypes, FullNumN(), FullNumM(), false, NodeType::Invalid);
 
     // Flag faces based on boundaries
@@ -671,13 +682,19 @@ meshkernel::UndoActionPtr CurvilinearGrid::InsertFace(Point const& point)
         throw std::invalid_argument("CurvilinearGrid::InsertFace: no valid nodes found");
     }
 
+    std::unique_ptr<CompoundUndoAction> undoAction = CompoundUndoAction::Create();
+
+    // Computing the node types may invalidate nodes of the entire grid
+    undoAction->Add(CurvilinearGridBlockUndoAction::Create(*this, {0, 0}, {NumN(), NumM()}));
+
     // Compute the grid node types
     ComputeGridNodeTypes();
 
     // Add a new edge
-    UndoActionPtr undoAction = AddEdge(firstNode, secondNode);
+    undoAction->Add(AddEdge(firstNode, secondNode));
 
     // Re-compute quantities
+    undoAction->Add(CurvilinearGridBlockUndoAction::Create(*this, {0, 0}, {NumN(), NumM()}));
     ComputeGridNodeTypes();
     m_gridIndices = ComputeNodeIndices();
 
@@ -796,6 +813,14 @@ std::tuple<bool, meshkernel::UndoActionPtr> CurvilinearGrid::AddGridLineAtBounda
         }
     }
 
+    if (gridSizeChanged)
+    {
+        m_nodesRTreeRequiresUpdate = true;
+        m_edgesRTreeRequiresUpdate = true;
+        m_facesRTreeRequiresUpdate = true;
+        m_gridIndices = ComputeNodeIndices();
+    }
+
     return {gridSizeChanged, std::move(undoAction)};
 }
 
@@ -1051,13 +1076,12 @@ meshkernel::UndoActionPtr CurvilinearGrid::DeleteNode(Point const& point)
     auto const nodeToDeleteIndex = FindLocationIndex(point, Location::Nodes);
     const auto nodeToDelete = m_gridIndices[nodeToDeleteIndex];
 
-    std::unique_ptr<ResetCurvilinearNodeAction> undoAction;
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction;
 
     if (nodeToDelete.IsValid())
     {
-        undoAction = ResetCurvilinearNodeAction::Create(*this, nodeToDelete, GetNode(nodeToDelete),
-                                                        {constants::missing::doubleValue, constants::missing::doubleValue},
-                                                        true /* recomputeNodeTypes */);
+        // Computing the node types may invalidate other nodes of the grid
+        undoAction = CurvilinearGridBlockUndoAction::Create(*this, {0, 0}, {NumN(), NumM()});
 
         // Invalidate gridnodes
         GetNode(nodeToDelete.m_n, nodeToDelete.m_m) = {constants::missing::doubleValue, constants::missing::doubleValue};
@@ -1152,10 +1176,12 @@ void CurvilinearGrid::RestoreAction(const AddGridLineUndoAction& undoAction)
     // The node and edge trees need to be rebuilt
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
 
     // Since the size of the grid has changed the node-vector needs to be reset
-    ComputeGridNodeTypes();
+    ComputeGridFacesMask();
+    AssignGridNodeTypes();
 }
 
 void CurvilinearGrid::CommitAction(const AddGridLineUndoAction& undoAction)
@@ -1164,8 +1190,10 @@ void CurvilinearGrid::CommitAction(const AddGridLineUndoAction& undoAction)
     m_endOffset -= undoAction.EndOffset();
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
-    ComputeGridNodeTypes();
+    ComputeGridFacesMask();
+    AssignGridNodeTypes();
 }
 
 void CurvilinearGrid::RestoreAction(CurvilinearGridBlockUndoAction& undoAction)
@@ -1173,7 +1201,9 @@ void CurvilinearGrid::RestoreAction(CurvilinearGridBlockUndoAction& undoAction)
     undoAction.Swap(*this);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
-    ComputeGridNodeTypes();
+    m_facesRTreeRequiresUpdate = true;
+    ComputeGridFacesMask();
+    AssignGridNodeTypes();
 }
 
 void CurvilinearGrid::CommitAction(CurvilinearGridBlockUndoAction& undoAction)
@@ -1181,7 +1211,9 @@ void CurvilinearGrid::CommitAction(CurvilinearGridBlockUndoAction& undoAction)
     undoAction.Swap(*this);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
-    ComputeGridNodeTypes();
+    m_facesRTreeRequiresUpdate = true;
+    ComputeGridFacesMask();
+    AssignGridNodeTypes();
 }
 
 void CurvilinearGrid::RestoreAction(CurvilinearGridRefinementUndoAction& undoAction)
@@ -1189,8 +1221,10 @@ void CurvilinearGrid::RestoreAction(CurvilinearGridRefinementUndoAction& undoAct
     undoAction.Swap(m_gridNodes, m_startOffset, m_endOffset);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
-    ComputeGridNodeTypes();
+    ComputeGridFacesMask();
+    AssignGridNodeTypes();
 }
 
 void CurvilinearGrid::CommitAction(CurvilinearGridRefinementUndoAction& undoAction)
@@ -1198,8 +1232,10 @@ void CurvilinearGrid::CommitAction(CurvilinearGridRefinementUndoAction& undoActi
     undoAction.Swap(m_gridNodes, m_startOffset, m_endOffset);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
-    ComputeGridNodeTypes();
+    ComputeGridFacesMask();
+    AssignGridNodeTypes();
 }
 
 void CurvilinearGrid::RestoreAction(const ResetCurvilinearNodeAction& undoAction)
@@ -1208,7 +1244,8 @@ void CurvilinearGrid::RestoreAction(const ResetCurvilinearNodeAction& undoAction
 
     if (undoAction.RecalculateNodeTypes())
     {
-        ComputeGridNodeTypes();
+        ComputeGridFacesMask();
+        AssignGridNodeTypes();
     }
 }
 
@@ -1218,7 +1255,8 @@ void CurvilinearGrid::CommitAction(const ResetCurvilinearNodeAction& undoAction)
 
     if (undoAction.RecalculateNodeTypes())
     {
-        ComputeGridNodeTypes();
+        ComputeGridFacesMask();
+        AssignGridNodeTypes();
     }
 }
 
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
index b7d8ce8..782a247 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
@@ -61,6 +61,8 @@ meshkernel::UndoActionPtr CurvilinearGridLineMirror::Compute()
     const auto startNode = m_lines[0].m_startNode;
     const auto endNode = m_lines[0].m_endNode;
 
+    // Computing the node types may invalidate nodes of the entire grid
+    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), m_grid.NumM()}));
     m_grid.ComputeGridNodeTypes();
     auto const gridLineType = m_grid.GetBoundaryGridLineType(startNode, endNode);
 
@@ -91,8 +93,8 @@ meshkernel::UndoActionPtr CurvilinearGridLineMirror::Compute()
         upperRight = {m_lines[0].m_endCoordinate + 1, m_grid.NumM() - 0};
         break;
     case Left:
-        lowerLeft = {0, m_lines[0].m_startCoordinate};
-        upperRight = {m_lines[0].m_endCoordinate + 1, m_lines[0].m_startCoordinate + 1};
+        lowerLeft = {m_lines[0].m_startCoordinate, 0};
+        upperRight = {m_lines[0].m_endCoordinate + 1, 1};
         break;
     default:
         throw std::invalid_argument("CurvilinearGridLineMirror:: Invalid grid line type");
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
index 0bd5669..6eecf28 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
@@ -71,10 +71,8 @@ meshkernel::UndoActionPtr CurvilinearGridOrthogonalization::Compute()
         throw std::invalid_argument("CurvilinearGridOrthogonalization::Compute: lower left and upper right corners defining the curvilinear grid block are not set");
     }
 
-    CurvilinearGridNodeIndices upperLimit = m_upperRight;
-    ++upperLimit.m_n;
-    ++upperLimit.m_m;
-    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, m_lowerLeft, upperLimit);
+    // Computing the node types may invalidate nodes of the entire grid
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), m_grid.NumM()});
 
     // Compute the grid node types
     m_grid.ComputeGridNodeTypes();
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothing.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothing.cpp
index 49be1c2..5fd3f9e 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothing.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothing.cpp
@@ -42,18 +42,15 @@ CurvilinearGridSmoothing::CurvilinearGridSmoothing(CurvilinearGrid& grid, UInt s
     // Allocate cache for storing grid nodes values
     // ResizeAndFill2DVector(m_gridNodesCache, static_cast<UInt>(m_grid.m_gridNodes.size()), static_cast<UInt>(m_grid.m_gridNodes[0].size()));
     lin_alg::ResizeAndFillMatrix(m_gridNodesCache, m_grid.NumN(), m_grid.NumM(), true);
-
-    // Compute the grid node types
-    m_grid.ComputeGridNodeTypes();
 }
 
 meshkernel::UndoActionPtr CurvilinearGridSmoothing::Compute()
 {
-    CurvilinearGridNodeIndices upperLimit = m_upperRight;
-    ++upperLimit.m_n;
-    ++upperLimit.m_m;
+    // Computing the node types may invalidate nodes of the entire grid
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), m_grid.NumM()});
 
-    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, m_lowerLeft, upperLimit);
+    // Compute the grid node types
+    m_grid.ComputeGridNodeTypes();
 
     // Perform smoothing iterations
     for (UInt smoothingIterations = 0; smoothingIterations < m_smoothingIterations; ++smoothingIterations)
@@ -94,6 +91,9 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridSmoothing::ComputeDirectional()
     m_lowerLeft = lowerLeftBlock;
     m_upperRight = upperRightBlock;
 
+    // Compute the grid node types
+    m_grid.ComputeGridNodeTypes();
+
     // Perform smoothing iterations
     for (UInt smoothingIterations = 0; smoothingIterations < m_smoothingIterations; ++smoothingIterations)
     {
@@ -107,7 +107,13 @@ void CurvilinearGridSmoothing::SolveDirectional()
 {
 
     // assign current nodal values to the m_gridNodesCache
-    m_gridNodesCache = m_grid.GetNodes();
+    for (UInt n = 0; n < m_grid.NumN(); ++n)
+    {
+        for (UInt m = 0; m < m_grid.NumM(); ++m)
+        {
+            m_gridNodesCache(n, m) = m_grid.GetNode(n, m);
+        }
+    }
 
     auto isInvalidValidNode = [this](auto const& n, auto const& m)
     {
@@ -181,7 +187,13 @@ void CurvilinearGridSmoothing::Solve()
     double const b = 1.0 - a;
 
     // assign current nodal values to the m_gridNodesCache
-    m_gridNodesCache = m_grid.GetNodes();
+    for (UInt n = 0; n < m_grid.NumN(); ++n)
+    {
+        for (UInt m = 0; m < m_grid.NumM(); ++m)
+        {
+            m_gridNodesCache(n, m) = m_grid.GetNode(n, m);
+        }
+    }
 
     // Apply smoothing
     for (auto n = m_lowerLeft.m_n; n <= m_upperRight.m_n; ++n)
-- 
2.43.0


From cd06bb10c1674bb233019625fcd012b10c4d1276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:05 +0000
Subject: [PATCH 16/99] fix: smoother read out of bounds for nodes connected to
 more edges than faces

---
 libs/MeshKernel/src/Smoother.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/MeshKernel/src/Smoother.cpp b/libs/MeshKernel/src/Smoother.cpp
index 95fc9d1..7a3e9de 100644
--- a/libs/MeshKernel/src/Smoother.cpp
+++ b/libs/MeshKernel/src/Smoother.cpp
@@ -475,8 +475,9 @@ void Smoother::ComputeOperatorsNode(UInt currentNode)
         }
     }
 
+    // The divergence operators are only defined for the shared faces, a node can be connected to more edges than faces
     double volxi = 0.0;
-    for (UInt i = 0; i < m_mesh.m_nodesNumEdges[currentNode]; i++)
+    for (UInt i = 0; i < m_Divxi[currentTopology].size(); i++)
     {
         volxi += 0.5 * (m_Divxi[currentTopology][i] * m_xisCache[i] + m_Diveta[currentTopology][i] * m_etasCache[i]);
     }
@@ -485,7 +486,7 @@ void Smoother::ComputeOperatorsNode(UInt currentNode)
         volxi = 1.0;
     }
 
-    for (UInt i = 0; i < m_mesh.m_nodesNumEdges[currentNode]; i++)
+    for (UInt i = 0; i < m_Divxi[currentTopology].size(); i++)
     {
         m_Divxi[currentTopology][i] = m_Divxi[currentTopology][i] / volxi;
         m_Diveta[currentTopology][i] = m_Diveta[currentTopology][i] / volxi;
@@ -524,7 +525,7 @@ void Smoother::ComputeOperatorsNode(UInt currentNode)
 
     // compute the weights in the Laplacian smoother
     std::fill(m_ww2[currentTopology].begin(), m_ww2[currentTopology].end(), 0.0);
-    for (UInt n = 0; n < m_mesh.m_nodesNumEdges[currentNode]; n++)
+    for (UInt n = 0; n < m_Divxi[currentTopology].size(); n++)
     {
         for (UInt i = 0; i < m_topologyConnectedNodes[currentTopology].size(); i++)
         {
-- 
2.43.0


From aaaa757eaa1e7ce8d65d8505f26be0a534f3b376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:19 +0000
Subject: [PATCH 17/99] fix: undo of curvilinear line shift did not restore the
 line when it is not in the block

---
 .../src/CurvilinearGrid/CurvilinearGridLineShift.cpp  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
index e744f87..6401009 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
@@ -25,6 +25,8 @@
 //
 //------------------------------------------------------------------------------
 
+#include <algorithm>
+
 #include <MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp>
 #include <MeshKernel/CurvilinearGrid/CurvilinearGridLine.hpp>
 #include <MeshKernel/CurvilinearGrid/CurvilinearGridLineShift.hpp>
@@ -49,10 +51,11 @@ meshkernel::UndoActionPtr CurvilinearGridLineShift::Compute()
         throw std::invalid_argument("CurvilinearGridLineShift::Compute No candidate line to shift has been selected");
     }
 
-    auto const startN = m_lines[0].IsNGridLine() ? m_lines[0].m_startCoordinate : m_lowerLeft.m_n;
-    auto const endN = m_lines[0].IsNGridLine() ? m_lines[0].m_endCoordinate : m_upperRight.m_n;
-    auto const startM = m_lines[0].IsMGridLine() ? m_lines[0].m_startCoordinate : m_lowerLeft.m_m;
-    auto const endM = m_lines[0].IsMGridLine() ? m_lines[0].m_endCoordinate : m_upperRight.m_m;
+    // The nodes on the line are moved as well, also when the line is not in the block
+    auto const startN = m_lines[0].IsNGridLine() ? m_lines[0].m_startCoordinate : std::min(m_lowerLeft.m_n, m_lines[0].m_startNode.m_n);
+    auto const endN = m_lines[0].IsNGridLine() ? m_lines[0].m_endCoordinate : std::max(m_upperRight.m_n, m_lines[0].m_startNode.m_n);
+    auto const startM = m_lines[0].IsMGridLine() ? m_lines[0].m_startCoordinate : std::min(m_lowerLeft.m_m, m_lines[0].m_startNode.m_m);
+    auto const endM = m_lines[0].IsMGridLine() ? m_lines[0].m_endCoordinate : std::max(m_upperRight.m_m, m_lines[0].m_startNode.m_m);
 
     std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, {startN, startM}, {endN + 1, endM + 1});
 
-- 
2.43.0


From 2da2dc692e7096b16d44e9560f83b0c90d9db137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:19 +0000
Subject: [PATCH 18/99] fix: undo of the orthogonalization did not restore the
 nodes outside the polygon snapped to land boundaries

---
 .../src/OrthogonalizationAndSmoothing.cpp          | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
index 0067c38..c2f7803 100644
--- a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
+++ b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
@@ -59,13 +59,13 @@ OrthogonalizationAndSmoothing::OrthogonalizationAndSmoothing(Mesh2D& mesh,
 
 std::unique_ptr<meshkernel::UndoAction> OrthogonalizationAndSmoothing::Initialize()
 {
+    // All nodes are saved: the nodes outside of the polygon can be moved too, when snapping to the land boundaries
+    std::unique_ptr<NodeTranslationAction> undoAction = NodeTranslationAction::Create(m_mesh);
+
     // Sets the node mask
     m_mesh.Administrate();
     const auto nodeMask = m_mesh.NodeMaskFromPolygon(*m_polygons, true);
 
-    std::vector<UInt> nodeIndices(m_mesh.GetNumNodes(), constants::missing::uintValue);
-    UInt nodesMovedCount = 0;
-
     // Flag nodes outside the polygon as corner points
     for (UInt n = 0; n < nodeMask.size(); n++)
     {
@@ -73,16 +73,8 @@ std::unique_ptr<meshkernel::UndoAction> OrthogonalizationAndSmoothing::Initializ
         {
             m_mesh.m_nodesTypes[n] = 3;
         }
-        else
-        {
-            nodeIndices[nodesMovedCount] = n;
-            ++nodesMovedCount;
-        }
     }
 
-    nodeIndices.resize(nodesMovedCount);
-    std::unique_ptr<NodeTranslationAction> undoAction = NodeTranslationAction::Create(m_mesh, nodeIndices);
-
     // TODO: calculate volume weights for areal smoother
     m_mumax = (1.0 - m_orthogonalizationParameters.areal_to_angle_smoothing_factor) * 0.5;
     m_mu = std::min(1e-2, m_mumax);
-- 
2.43.0


From 78db719ccbccb6ee30dad86e6da666be3bc94642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:19 +0000
Subject: [PATCH 19/99] fix: undo of deleting hanging edges did not restore the
 nodes left without edges

---
 libs/MeshKernel/src/Mesh2D.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index da66358..ed61751 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -1876,6 +1876,9 @@ std::unique_ptr<meshkernel::UndoAction> Mesh2D::DeleteHangingEdges()
         deleteAction->Add(DeleteEdge(hangingEdge));
     }
 
+    // The nodes no longer connected to any edge are deleted, this must be part of the undo action
+    Administrate(deleteAction.get());
+
     return deleteAction;
 }
 
-- 
2.43.0


From 1f8b3b2803f52335c9b6945fbda6ab68e8f02e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:16 +0000
Subject: [PATCH 20/99] fix: no out of bounds access when splitting a row
 visits an element from an edge of another one

---
 libs/MeshKernel/src/SplitRowColumnOfMesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp b/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
index 5520403..8fa25c1 100644
--- a/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
+++ b/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
@@ -177,7 +177,7 @@ void meshkernel::SplitRowColumnOfMesh::SplitElement(Mesh2D& mesh,
 {
     const Edge edgeNode = mesh.GetEdge(edgeId);
     const std::array<UInt, 2>& edgeFace = mesh.m_edgesFaces[edgeId];
-    const UInt previousElementId = edgeFace[0] + edgeFace[1] - elementId;
+    const UInt previousElementId = Neighbour(edgeFace, elementId);
     const UInt nextElementId = GetNextElement(mesh, elementId, edgeId);
 
     if (!IsValid(previousElementId))
-- 
2.43.0


From 5f9915cf2b1ed5e0a4f4e7e1210c9e87de9debec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:16 +0000
Subject: [PATCH 21/99] fix: Casulli refinement and de-refinement accessed out
 of bounds when a face has no new node or no common link

---
 libs/MeshKernel/src/CasulliDeRefinement.cpp | 6 ++++++
 libs/MeshKernel/src/CasulliRefinement.cpp   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index 83f8b65..a4f8758 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -609,6 +609,12 @@ bool meshkernel::CasulliDeRefinement::UpdateDirectlyConnectedTriangleElements(Me
             }
         }
 
+        // there is no common link
+        if (j == mesh.m_numFacesNodes[leftElementId])
+        {
+            return false;
+        }
+
         if (otherEdgeId != constants::missing::uintValue)
         {
             mesh.m_facesEdges[leftElementId][j] = otherEdgeId;
diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index ccace28..2a01252 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -348,6 +348,12 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ConnectFa
         const UInt node3 = oldIndex[nextIndex];
         const UInt node4 = oldIndex[nextNextIndex];
 
+        // no new node was created on this edge of the face
+        if (node1 == constants::missing::uintValue)
+        {
+            continue;
+        }
+
         // only one new node: new diagonal edge connects new node with one old node
         if (nodeMask[node1] < NodeMask::Unassigned && nodeMask[node2] == NodeMask::Unassigned && nodeMask[node3] == NodeMask::Unassigned && nodeMask[node4] == NodeMask::Unassigned)
         {
-- 
2.43.0


From 56a9551715ca9b12fdc04085f556a075d1c81071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:16 +0000
Subject: [PATCH 22/99] fix: conversion of a mesh to curvilinear grids read out
 of bounds for edges without faces

---
 libs/MeshKernel/src/Mesh2DToCurvilinear.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp b/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp
index 9eea743..41b8324 100644
--- a/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp
+++ b/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp
@@ -305,7 +305,8 @@ bool Mesh2DToCurvilinear::CheckGridLine(const UInt validNode, const UInt candida
         const auto edgeIndex = m_mesh.m_nodesEdges[candidateNode][e];
         const auto otherNode = OtherNodeOfEdge(m_mesh.GetEdge(edgeIndex), candidateNode);
 
-        bool doCheck = m_mesh.GetNumFaceEdges(m_mesh.m_edgesFaces[edgeIndex][0]) == geometric::numNodesInQuadrilateral;
+        bool doCheck = m_mesh.m_edgesNumFaces[edgeIndex] > 0 &&
+                       m_mesh.GetNumFaceEdges(m_mesh.m_edgesFaces[edgeIndex][0]) == geometric::numNodesInQuadrilateral;
 
         if (m_mesh.m_edgesNumFaces[edgeIndex] == 2)
         {
-- 
2.43.0


From 4e50295bc6708064f27a854e90398722c72d294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:07 +0000
Subject: [PATCH 23/99] fix: endless loop when intersecting a polyline with an
 edge without faces

---
 libs/MeshKernel/src/Mesh2DIntersections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2DIntersections.cpp b/libs/MeshKernel/src/Mesh2DIntersections.cpp
index 952acd3..59e21af 100644
--- a/libs/MeshKernel/src/Mesh2DIntersections.cpp
+++ b/libs/MeshKernel/src/Mesh2DIntersections.cpp
@@ -309,6 +309,9 @@ void Mesh2DIntersections::Compute(const std::vector<Point>& polyLine)
                                    crossingEdges);
             }
         }
+
+        // an edge without faces is not visited above, do not use it as seed again
+        vistedEdges[crossedEdgeIndex] = true;
     }
 
     // Sort the edges for each face
-- 
2.43.0


From 4c66e6729f029de8f3039a8846f3aee0158ecda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:50 +0000
Subject: [PATCH 24/99] fix: connecting meshes accessed out of bounds for
 deleted edges and too many elements along an edge

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index 0ff2797..8d11774 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -149,6 +149,11 @@ void meshkernel::ConnectMeshes::GatherHangingNodeIds(const Mesh2D& mesh,
                 continue;
             }
 
+            if (edgeInfo.edgeCount == m_maximumNumberOfIrregularElementsAlongEdge)
+            {
+                throw AlgorithmError("The number of elements along an edge exceeds the maximum: {}", m_maximumNumberOfIrregularElementsAlongEdge);
+            }
+
             edgeInfo.hangingNodes[edgeInfo.edgeCount] = j;
             ++edgeInfo.edgeCount;
 
@@ -194,6 +199,12 @@ void meshkernel::ConnectMeshes::GatherHangingNodes(const UInt primaryStartNode,
     const UInt secondaryStartNode = irregularEdge.first;
     const UInt secondaryEndNode = irregularEdge.second;
 
+    // The edge has been deleted already
+    if (secondaryStartNode == constants::missing::uintValue || secondaryEndNode == constants::missing::uintValue)
+    {
+        return;
+    }
+
     if (mergeIndicator[secondaryStartNode] == MergeIndicator::Initial && secondaryStartNode != primaryStartNode && secondaryStartNode != primaryEndNode)
     {
         hangingNodesOnEdge[numberOfHangingNodes] = secondaryStartNode;
@@ -239,7 +250,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::Compute(Mesh2
     nodesToMerge.reserve(m_maximumNumberOfIrregularElementsAlongEdge * numberOfEdges);
 
     std::vector<UInt> hangingNodesOnEdge(numberOfEdges);
-    std::vector<MergeIndicator> mergeIndicator(numberOfEdges, MergeIndicator::Initial);
+    std::vector<MergeIndicator> mergeIndicator(mesh.GetNumNodes(), MergeIndicator::Initial);
 
     std::unique_ptr<meshkernel::CompoundUndoAction> conectMeshesAction = CompoundUndoAction::Create();
 
-- 
2.43.0


From d2b079e52688f21fc84b2b6bc23f2b170d1ed6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:50 +0000
Subject: [PATCH 25/99] fix: Casulli de-refinement redirected the nodes of the
 wrong element

---
 libs/MeshKernel/src/CasulliDeRefinement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index a4f8758..ff9d6ea 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -742,7 +742,7 @@ void meshkernel::CasulliDeRefinement::RedirectNodesOfConnectedElements(Mesh2D& m
             {
                 if (faceNodeId == mesh.m_facesNodes[elementId][k])
                 {
-                    mesh.m_facesNodes[elementId][j] = nodeId;
+                    mesh.m_facesNodes[connectedElementId][j] = nodeId;
                 }
             }
         }
-- 
2.43.0


From 0f24f1df44b8e31039d2a0c9acf4d47b420b52a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:50 +0000
Subject: [PATCH 26/99] fix: out of bounds read at the end of a curvilinear
 grid with index offsets

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 8009b8e..1c0d624 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -855,7 +855,7 @@ CurvilinearGrid::BoundaryGridLineType CurvilinearGrid::GetBoundaryGridLineType(C
     // Corner nodes
     if (firstNode.m_m == secondNode.m_m) // Left or Right
     {
-        if (firstNode.m_m + 1 < m_gridNodes.cols() && GetNode(firstNode.m_n, firstNode.m_m + 1).IsValid() && GetNode(secondNode.m_n, secondNode.m_m + 1).IsValid())
+        if (firstNode.m_m + 1 < NumM() && GetNode(firstNode.m_n, firstNode.m_m + 1).IsValid() && GetNode(secondNode.m_n, secondNode.m_m + 1).IsValid())
         {
             return BoundaryGridLineType::Left;
         }
@@ -863,7 +863,7 @@ CurvilinearGrid::BoundaryGridLineType CurvilinearGrid::GetBoundaryGridLineType(C
     }
     if (firstNode.m_n == secondNode.m_n) // Bottom or top
     {
-        if (firstNode.m_n + 1 < m_gridNodes.rows() && GetNode(firstNode.m_n + 1, firstNode.m_m).IsValid() && GetNode(secondNode.m_n + 1, secondNode.m_m).IsValid())
+        if (firstNode.m_n + 1 < NumN() && GetNode(firstNode.m_n + 1, firstNode.m_m).IsValid() && GetNode(secondNode.m_n + 1, secondNode.m_m).IsValid())
         {
             return BoundaryGridLineType::Bottom;
         }
-- 
2.43.0


From 54d09567d2711a9b26b590032c809663c7bdb58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:50 +0000
Subject: [PATCH 27/99] fix: smoother read out of bounds for the first face of
 a node with more edges than faces

---
 libs/MeshKernel/src/Smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Smoother.cpp b/libs/MeshKernel/src/Smoother.cpp
index 7a3e9de..208a39f 100644
--- a/libs/MeshKernel/src/Smoother.cpp
+++ b/libs/MeshKernel/src/Smoother.cpp
@@ -501,7 +501,7 @@ void Smoother::ComputeOperatorsNode(UInt currentNode)
             UInt rightNode;
             if (f == 0)
             {
-                rightNode = f + m_mesh.m_nodesNumEdges[currentNode] - 1;
+                rightNode = static_cast<UInt>(m_topologySharedFaces[currentTopology].size()) - 1;
             }
             else
             {
-- 
2.43.0


From fc8b09abc66e7636bd9d58b2edb280959dc4cf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:50 +0000
Subject: [PATCH 28/99] fix: undo of deleting edges or nodes and merging two
 nodes did not restore the nodes left without edges

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 062b68e..b67b449 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2099,7 +2099,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->MergeTwoNodes(firstNode, secondNode), meshKernelId);
+            auto undoAction = meshkernel::CompoundUndoAction::Create();
+            undoAction->Add(meshKernelState[meshKernelId].m_mesh2d->MergeTwoNodes(firstNode, secondNode));
+            // The nodes no longer connected to any edge are deleted, this must be part of the undo action
+            meshKernelState[meshKernelId].m_mesh2d->Administrate(undoAction.get());
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
@@ -2307,7 +2311,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->DeleteNode(nodeIndex), meshKernelId);
+            auto undoAction = meshkernel::CompoundUndoAction::Create();
+            undoAction->Add(meshKernelState[meshKernelId].m_mesh2d->DeleteNode(nodeIndex));
+            // The nodes no longer connected to any edge are deleted, this must be part of the undo action
+            meshKernelState[meshKernelId].m_mesh2d->Administrate(undoAction.get());
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
@@ -2358,7 +2366,11 @@ namespace meshkernelapi
             meshkernel::BoundingBox boundingBox{{xLowerLeftBoundingBox, yLowerLeftBoundingBox}, {xUpperRightBoundingBox, yUpperRightBoundingBox}};
 
             const auto edgeIndex = meshKernelState[meshKernelId].m_mesh2d->FindLocationIndex(point, meshkernel::Location::Edges, {}, boundingBox);
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->DeleteEdge(edgeIndex), meshKernelId);
+            auto undoAction = meshkernel::CompoundUndoAction::Create();
+            undoAction->Add(meshKernelState[meshKernelId].m_mesh2d->DeleteEdge(edgeIndex));
+            // The nodes no longer connected to any edge are deleted, this must be part of the undo action
+            meshKernelState[meshKernelId].m_mesh2d->Administrate(undoAction.get());
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
@@ -2377,7 +2389,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->DeleteEdge(edgeIndex), meshKernelId);
+            auto undoAction = meshkernel::CompoundUndoAction::Create();
+            undoAction->Add(meshKernelState[meshKernelId].m_mesh2d->DeleteEdge(edgeIndex));
+            // The nodes no longer connected to any edge are deleted, this must be part of the undo action
+            meshKernelState[meshKernelId].m_mesh2d->Administrate(undoAction.get());
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From e132509205907ddd1ea2476178281e18317cdde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:56 +0000
Subject: [PATCH 29/99] fix: Casulli de-refinement wrote out of bounds when no
 seed element is found

---
 libs/MeshKernel/src/CasulliDeRefinement.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index ff9d6ea..64e75c3 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -305,6 +305,12 @@ std::vector<meshkernel::CasulliDeRefinement::ElementType> meshkernel::CasulliDeR
 
     std::vector<ElementType> cellMask(mesh.GetNumFaces(), ElementType::Unassigned);
 
+    // There is no element to start from
+    if (seedElement >= mesh.GetNumFaces())
+    {
+        return cellMask;
+    }
+
     cellMask[seedElement] = ElementType::WasNodeFirst;
     frontIndex.push_back(seedElement);
 
-- 
2.43.0


From acea80f188987eabc1697344325c8b99eae0a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:07 +0000
Subject: [PATCH 30/99] fix: a failed orthogonalization left a changed mesh and
 an entry in the undo history

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index b67b449..5d79ded 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1247,8 +1247,20 @@ namespace meshkernelapi
                                                                        std::move(landBoundary),
                                                                        static_cast<meshkernel::LandBoundaries::ProjectToLandBoundaryOption>(projectToLandBoundaryOption),
                                                                        orthogonalizationParameters);
-            meshKernelUndoStack.Add(ortogonalization.Initialize(), meshKernelId);
-            ortogonalization.Compute();
+            auto undoAction = ortogonalization.Initialize();
+
+            try
+            {
+                ortogonalization.Compute();
+            }
+            catch (...)
+            {
+                // The orthogonalization failed, the mesh must not be changed
+                undoAction->Restore();
+                throw;
+            }
+
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From 9effaa0a53e95ebf05cf6eec14d1701ffa3c2767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:58 +0000
Subject: [PATCH 31/99] fix: snapping a mesh to land boundaries was not
 recorded for the kernel it was done in

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 5d79ded..10a7faf 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -500,7 +500,7 @@ namespace meshkernelapi
             landBoundary.FindNearestMeshBoundary(meshkernel::LandBoundaries::ProjectToLandBoundaryOption::InnerAndOuterMeshBoundaryToLandBoundary);
 
             // Execute algorithm
-            meshKernelUndoStack.Add(landBoundary.SnapMeshToLandBoundaries());
+            meshKernelUndoStack.Add(landBoundary.SnapMeshToLandBoundaries(), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From e4c60a33c9d030de106e630b7d6e0fcf1af05f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:21 +0000
Subject: [PATCH 32/99] fix: mesh refinement wrote out of bounds for
 quadrilaterals with inconsistent hanging nodes

---
 libs/MeshKernel/src/MeshRefinement.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/MeshRefinement.cpp b/libs/MeshKernel/src/MeshRefinement.cpp
index 5a1f08d..cb03bf6 100644
--- a/libs/MeshKernel/src/MeshRefinement.cpp
+++ b/libs/MeshKernel/src/MeshRefinement.cpp
@@ -1193,6 +1193,11 @@ void MeshRefinement::ComputeEdgesRefinementMask()
                 UInt num = 0;
                 for (UInt n = 0; n < numFaceNodes; n++)
                 {
+                    if (num >= constants::geometric::numNodesInQuadrilateral)
+                    {
+                        throw AlgorithmError("The number the links in the cell is not equal to 3.");
+                    }
+
                     const auto edgeIndex = m_mesh.m_facesEdges[f][n];
                     numOfEdges[n] = num;
 
-- 
2.43.0


From 080614c9e8bb816bae8a8c84b1e53f1f0b954176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:35 +0000
Subject: [PATCH 33/99] fix: connecting meshes accessed out of bounds for an
 edge deleted when freeing hanging nodes

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index 8d11774..3f03a85 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -267,6 +267,12 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::Compute(Mesh2
         const UInt boundaryEdgeId = edgesOnDomainBoundary[i];
         const Edge boundaryEdge = mesh.GetEdge(boundaryEdgeId);
 
+        // The edge has been deleted when freeing the hanging nodes of another edge
+        if (boundaryEdge.first == missingValue || boundaryEdge.second == missingValue)
+        {
+            continue;
+        }
+
         const UInt primaryStartNode = irregularEdge.startNode;
         const UInt primaryEndNode = irregularEdge.endNode;
 
-- 
2.43.0


From 926579a4ed97f3501fd37c8dc8eb8a7e37216a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:03 +0000
Subject: [PATCH 34/99] fix: orthogonalization read smoother weights out of
 bounds for nodes with more edges than connected nodes

---
 libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
index c2f7803..eb6f974 100644
--- a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
+++ b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
@@ -200,7 +200,7 @@ void OrthogonalizationAndSmoothing::ComputeLinearSystemTerms()
             double wwy = 0.0;
 
             // Smoother
-            if (atpf1Loc > 0.0 && m_mesh.m_nodesTypes[n] == 1)
+            if (atpf1Loc > 0.0 && m_mesh.m_nodesTypes[n] == 1 && nn < static_cast<int>(m_smoother->GetNumConnectedNodes(n)))
             {
                 wwx = atpf1Loc * m_smoother->GetWeight(n, nn);
                 wwy = atpf1Loc * m_smoother->GetWeight(n, nn);
-- 
2.43.0


From fb13d586b715ec625344607159730c667691551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:03 +0000
Subject: [PATCH 35/99] fix: flipping edges could connect two nodes which were
 already connected

---
 libs/MeshKernel/src/FlipEdges.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/FlipEdges.cpp b/libs/MeshKernel/src/FlipEdges.cpp
index 7657b38..cb00f05 100644
--- a/libs/MeshKernel/src/FlipEdges.cpp
+++ b/libs/MeshKernel/src/FlipEdges.cpp
@@ -131,6 +131,12 @@ std::unique_ptr<meshkernel::UndoAction> FlipEdges::Compute() const
                 continue;
             }
 
+            // The nodes of the flipped edge are already connected
+            if (m_mesh.FindEdge(nodeLeft, nodeRight) != constants::missing::uintValue)
+            {
+                continue;
+            }
+
             // Flip the edges
             action->Add(m_mesh.ResetEdge(e, {nodeLeft, nodeRight}));
             numFlippedEdges++;
-- 
2.43.0


From 50af2f558c8d36a510b1141d6d9d3a63b8929deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:03 +0000
Subject: [PATCH 36/99] fix: Casulli refinement and connecting meshes could
 connect two nodes twice, or a node with itself; a failed Casulli refinement
 left a changed mesh

---
 libs/MeshKernel/include/MeshKernel/Mesh.hpp |  6 +++
 libs/MeshKernel/src/CasulliRefinement.cpp   | 41 +++++++++++++--------
 libs/MeshKernel/src/ConnectMeshes.cpp       |  2 +
 libs/MeshKernel/src/Mesh.cpp                | 25 +++++++++++++
 4 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/Mesh.hpp b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
index 75cc3a7..5edf995 100644
--- a/libs/MeshKernel/include/MeshKernel/Mesh.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
@@ -286,6 +286,12 @@ namespace meshkernel
         /// @returns The index of the closest node
         [[nodiscard]] UInt FindNodeCloseToAPoint(Point const& point, double searchRadius);
 
+        /// @brief Deletes the edges connecting two nodes which are already connected by another edge
+        ///
+        /// The connectivity of the nodes is not used, so it is not required to be up to date
+        /// @return The undo action
+        [[nodiscard]] std::unique_ptr<UndoAction> DeleteDuplicateEdges();
+
         /// @brief Deletes an edge
         /// @param[in] edge The edge index
         /// @return The undoAction to delete the edge
diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index 2a01252..b8e97b1 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -31,6 +31,7 @@
 #include "MeshKernel/Exceptions.hpp"
 #include "MeshKernel/UndoActions/AddNodeAction.hpp"
 #include "MeshKernel/UndoActions/CompoundUndoAction.hpp"
+#include "MeshKernel/UndoActions/FullUnstructuredGridUndo.hpp"
 
 std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(Mesh2D& mesh)
 {
@@ -48,9 +49,22 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(M
     const UInt numEdges = mesh.GetNumEdges();
     const UInt numFaces = mesh.GetNumFaces();
 
-    refinementAction->Add(ComputeNewNodes(mesh, newNodes, nodeMask));
-    refinementAction->Add(ConnectNewNodes(mesh, newNodes, numNodes, numEdges, numFaces, nodeMask));
-    refinementAction->Add(Administrate(mesh, numNodes, nodeMask));
+    std::unique_ptr<FullUnstructuredGridUndo> originalMesh = FullUnstructuredGridUndo::Create(mesh);
+
+    try
+    {
+        refinementAction->Add(ComputeNewNodes(mesh, newNodes, nodeMask));
+        refinementAction->Add(ConnectNewNodes(mesh, newNodes, numNodes, numEdges, numFaces, nodeMask));
+        refinementAction->Add(mesh.DeleteDuplicateEdges());
+        refinementAction->Add(Administrate(mesh, numNodes, nodeMask));
+    }
+    catch (...)
+    {
+        // The refinement failed, restore the original mesh
+        originalMesh->Restore();
+        throw;
+    }
+
     return refinementAction;
 }
 
@@ -404,21 +418,16 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ConnectEd
         }
         else
         {
-            if (mesh.GetEdge(edgeId).first == currentNode)
-            {
-                auto [edgeId1, connectionAction1] = mesh.ConnectNodes(currentNode, newNodes[edgeId][0]);
-                connectEdgesAction->Add(std::move(connectionAction1));
+            const bool isFirstNode = mesh.GetEdge(edgeId).first == currentNode;
 
-                auto [edgeId2, connectionAction2] = mesh.ConnectNodes(currentNode, newNodes[edgeId][2]);
-                connectEdgesAction->Add(std::move(connectionAction2));
-            }
-            else
+            for (const UInt newNode : {newNodes[edgeId][isFirstNode ? 0 : 1], newNodes[edgeId][isFirstNode ? 2 : 3]})
             {
-                auto [edgeId1, connectionAction1] = mesh.ConnectNodes(currentNode, newNodes[edgeId][1]);
-                connectEdgesAction->Add(std::move(connectionAction1));
-
-                auto [edgeId2, connectionAction2] = mesh.ConnectNodes(currentNode, newNodes[edgeId][3]);
-                connectEdgesAction->Add(std::move(connectionAction2));
+                // there are no new nodes on the side(s) of an edge without face
+                if (newNode != constants::missing::uintValue)
+                {
+                    auto [newEdgeId, connectionAction] = mesh.ConnectNodes(currentNode, newNode);
+                    connectEdgesAction->Add(std::move(connectionAction));
+                }
             }
         }
     }
diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index 3f03a85..5ec47dd 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -310,6 +310,8 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::Compute(Mesh2
     }
 
     conectMeshesAction->Add(MergeNodes(mesh, nodesToMerge, mergeIndicator));
+    // The connectivity was not updated while adding edges and merging nodes, the same nodes may have been connected more than once
+    conectMeshesAction->Add(mesh.DeleteDuplicateEdges());
     mesh.Administrate(conectMeshesAction.get());
     return conectMeshesAction;
 }
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index c9ce67c..0d8bdba 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -28,6 +28,8 @@
 #include <algorithm>
 #include <cmath>
 #include <numeric>
+#include <set>
+#include <utility>
 
 #include "MeshKernel/Entities.hpp"
 #include "MeshKernel/Exceptions.hpp"
@@ -521,6 +523,29 @@ void Mesh::SetNode(const UInt nodeId, const Point& newValue)
     m_facesRTreeRequiresUpdate = true;
 }
 
+std::unique_ptr<meshkernel::UndoAction> Mesh::DeleteDuplicateEdges()
+{
+    std::unique_ptr<CompoundUndoAction> undoAction = CompoundUndoAction::Create();
+    std::set<std::pair<UInt, UInt>> connectedNodes;
+
+    for (UInt e = 0; e < GetNumEdges(); ++e)
+    {
+        const auto [first, second] = m_edges[e];
+
+        if (first == constants::missing::uintValue || second == constants::missing::uintValue)
+        {
+            continue;
+        }
+
+        if (first == second || !connectedNodes.emplace(std::min(first, second), std::max(first, second)).second)
+        {
+            undoAction->Add(DeleteEdge(e));
+        }
+    }
+
+    return undoAction;
+}
+
 std::unique_ptr<meshkernel::DeleteEdgeAction> Mesh::DeleteEdge(UInt edge)
 {
     if (edge == constants::missing::uintValue) [[unlikely]]
-- 
2.43.0


From 91d2417e9464d07ebe241b208731c1da85baf051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:17 +0000
Subject: [PATCH 37/99] fix: inserting an edge from coordinates in a spherical
 mesh searched existing nodes with a radius in meters as if it were degrees

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 10a7faf..15cd373 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2253,7 +2253,16 @@ namespace meshkernelapi
 
             meshKernelState[meshKernelId].m_mesh2d->BuildTree(meshkernel::Location::Nodes);
 
-            auto firstNodeId = meshKernelState[meshKernelId].m_mesh2d->FindNodeCloseToAPoint(firstNodeCoordinates, searchRadius);
+            // The search tree of a spherical mesh is in degrees, the node found must be within the search radius in meters
+            const auto findNode = [&mesh = *meshKernelState[meshKernelId].m_mesh2d, searchRadius](const meshkernel::Point& point)
+            {
+                const auto nodeId = mesh.FindNodeCloseToAPoint(point, searchRadius);
+                const bool isFound = nodeId != meshkernel::constants::missing::uintValue &&
+                                     ComputeDistance(point, mesh.Node(nodeId), mesh.m_projection) <= searchRadius;
+                return isFound ? nodeId : meshkernel::constants::missing::uintValue;
+            };
+
+            auto firstNodeId = findNode(firstNodeCoordinates);
             if (firstNodeId == meshkernel::constants::missing::uintValue)
             {
                 auto result = meshKernelState[meshKernelId].m_mesh2d->InsertNode(firstNodeCoordinates);
@@ -2263,7 +2272,7 @@ namespace meshkernelapi
             }
             firstNodeIndex = static_cast<int>(firstNodeId);
 
-            auto secondNodeId = meshKernelState[meshKernelId].m_mesh2d->FindNodeCloseToAPoint(secondNodeCoordinates, searchRadius);
+            auto secondNodeId = findNode(secondNodeCoordinates);
             if (secondNodeId == meshkernel::constants::missing::uintValue)
             {
                 auto result = meshKernelState[meshKernelId].m_mesh2d->InsertNode(secondNodeCoordinates);
-- 
2.43.0


From 61e66ef7cadca3adeb959da5d848d672ee7ed13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:17 +0000
Subject: [PATCH 38/99] fix: inserting an edge from coordinates failed when the
 mesh has deleted edges and the edge lengths were computed

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 15cd373..1194bba 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2243,7 +2243,15 @@ namespace meshkernelapi
             const auto& edgeLengths = meshKernelState[meshKernelId].m_mesh2d->m_edgeLengths;
             constexpr auto lengthFraction = 0.01;
 
-            const auto minMeshEdgeLength = edgeLengths.empty() ? newEdgeLength : *std::ranges::min_element(edgeLengths);
+            auto minMeshEdgeLength = newEdgeLength;
+            for (const auto edgeLength : edgeLengths)
+            {
+                // The length of a deleted edge is missing
+                if (edgeLength != meshkernel::constants::missing::doubleValue)
+                {
+                    minMeshEdgeLength = std::min(minMeshEdgeLength, edgeLength);
+                }
+            }
             const auto searchRadius = std::min(newEdgeLength * lengthFraction, minMeshEdgeLength * lengthFraction);
 
             if (searchRadius <= 0.0)
-- 
2.43.0


From 254c706290e846c6636d8a274fea23901de3ccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:50 +0000
Subject: [PATCH 39/99] fix: testing points against a polygon shifted the
 results when a point was repeated

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 1194bba..a643806 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2932,13 +2932,13 @@ namespace meshkernelapi
             }
             auto const polygonVector = ConvertGeometryListToPointVector(selectingPolygon);
 
-            auto const points = ConvertGeometryListToPointVector(polygonToSelect);
-
             const meshkernel::Polygons localPolygon(polygonVector, meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
-            for (size_t i = 0; i < points.size(); ++i)
+            // one result per given point, repeated points included
+            for (int i = 0; i < polygonToSelect.num_coordinates; ++i)
             {
-                selectionResults.values[i] = localPolygon.IsPointInPolygon(points[i], 0) ? 1.0 : 0.0;
+                const meshkernel::Point point(polygonToSelect.coordinates_x[i], polygonToSelect.coordinates_y[i]);
+                selectionResults.values[i] = localPolygon.IsPointInPolygon(point, 0) ? 1.0 : 0.0;
             }
         }
         catch (...)
-- 
2.43.0


From 8f8c95d1b4e441e5c1722b1c2bf226715c0a07d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:50 +0000
Subject: [PATCH 40/99] fix: connecting meshes wrote out of bounds with more
 than five hanging nodes along an edge

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index 5ec47dd..8c3203e 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -698,6 +698,12 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::FreeHangingNo
         return nullptr;
     }
 
+    if (numberOfHangingNodes > m_maximumNumberOfIrregularElementsAlongEdge)
+    {
+        throw NotImplementedError("Cannot handle more than 4 hanging nodes along irregular edge, number is: {}",
+                                  numberOfHangingNodes);
+    }
+
     std::unique_ptr<CompoundUndoAction> freeHangingNodesAction = CompoundUndoAction::Create();
 
     BoundedIntegerArray hangingNodes;
-- 
2.43.0


From a657eadd4cc54aa650526e8c606b0384c9f2043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:29 +0000
Subject: [PATCH 41/99] fix: search trees were out of date after removing
 invalid nodes and edges (Casulli de-refinement)

---
 libs/MeshKernel/src/Mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 0d8bdba..d5e3f25 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -249,6 +249,11 @@ void Mesh::DeleteInvalidNodesAndEdges()
     const auto endEdgeVector = std::remove_if(m_edges.begin(), m_edges.end(), [](const Edge& e)
                                               { return e.first == constants::missing::uintValue || e.second == constants::missing::uintValue; });
     m_edges.erase(endEdgeVector, m_edges.end());
+
+    // The nodes and edges have been renumbered
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::SetUnConnectedNodesAndEdgesToInvalid(CompoundUndoAction* undoAction)
-- 
2.43.0


From b7a1600e7679ee4419e0ed0dea5e9e465d8db6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:15 +0000
Subject: [PATCH 42/99] fix: merging nodes in several polygons only considered
 the first polygon

---
 libs/MeshKernel/src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index d5e3f25..a48a6d1 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -1007,7 +1007,7 @@ std::vector<bool> Mesh::IsLocationInPolygon(const Polygons& polygon, Location lo
     std::vector<bool> result(locations.size(), false);
     for (UInt i = 0; i < result.size(); ++i)
     {
-        result[i] = polygon.IsPointInPolygon(locations[i], 0);
+        result[i] = polygon.IsPointInAnyPolygon(locations[i]);
     }
 
     return result;
-- 
2.43.0


From b71b7c1a239463d5d9cce98d44a8dc65af2a2c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:00 +0000
Subject: [PATCH 43/99] fix: mesh metrics were computed with out of date
 connectivity after editing, and their dimensions could be left unset

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index a643806..1934251 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1178,6 +1178,7 @@ namespace meshkernelapi
             {
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto hangingEdges = meshKernelState[meshKernelId].m_mesh2d->GetHangingEdges();
             for (size_t i = 0; i < hangingEdges.size(); ++i)
             {
@@ -1461,6 +1462,8 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            // The mesh may have been edited
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto result = meshKernelState[meshKernelId].m_mesh2d->GetOrthogonality();
 
             if (static_cast<size_t>(geometryList.num_coordinates) != result.size())
@@ -1502,6 +1505,7 @@ namespace meshkernelapi
             {
             case meshkernel::Mesh2D::Property::Orthogonality:
             {
+                mesh2d->Administrate();
                 std::vector<double> values = mesh2d->GetOrthogonality();
                 if (static_cast<size_t>(geometryList.num_coordinates) < values.size())
                 {
@@ -1554,7 +1558,7 @@ namespace meshkernelapi
             switch (propertyValueEnum)
             {
             case meshkernel::Mesh2D::Property::Orthogonality:
-                dimension = static_cast<int>(mesh2d->GetOrthogonality().size());
+                dimension = static_cast<int>(mesh2d->GetNumEdges());
                 break;
 
             case meshkernel::Mesh2D::Property::EdgeLength:
@@ -1587,8 +1591,15 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            // The mesh may have been edited
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto result = meshKernelState[meshKernelId].m_mesh2d->GetSmoothness();
 
+            if (static_cast<size_t>(geometryList.num_coordinates) != result.size())
+            {
+                throw meshkernel::MeshKernelError("The value array has not the same size of the result array storing the smoothness values at the edges");
+            }
+
             for (auto i = 0; i < geometryList.num_coordinates; ++i)
             {
                 geometryList.values[i] = result[i];
@@ -2512,6 +2523,7 @@ namespace meshkernelapi
                 }
                 numMatchingFaces += 1;
             }
+            geometryListDimension = 0;
             if (numMatchingFaces > 0)
             {
                 geometryListDimension = (numEdges + 2) * (numMatchingFaces - 1) + numEdges + 1;
@@ -2541,6 +2553,7 @@ namespace meshkernelapi
             {
                 throw meshkernel::ConstraintError("The 2d mesh contains no nodes.");
             }
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto filterEnum = static_cast<meshkernel::Mesh2D::Property>(propertyValue);
             const auto filterMask = meshKernelState[meshKernelId].m_mesh2d->FilterBasedOnMetric(meshkernel::Location::Faces,
                                                                                                 filterEnum,
@@ -2586,6 +2599,7 @@ namespace meshkernelapi
                 throw meshkernel::ConstraintError("The 2d mesh contains no nodes.");
             }
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto filterEnum = static_cast<meshkernel::Mesh2D::Property>(propertyValue);
             const auto filterMask = meshKernelState[meshKernelId].m_mesh2d->FilterBasedOnMetric(meshkernel::Location::Faces,
                                                                                                 filterEnum,
-- 
2.43.0


From 92cbed041802a847cb894bf9f00c9462c293c4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:51 +0000
Subject: [PATCH 44/99] fix: the length of a deleted edge keeps its old value

---
 libs/MeshKernel/src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index a48a6d1..50c85d5 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -586,7 +586,7 @@ std::unique_ptr<meshkernel::DeleteNodeAction> Mesh::DeleteNode(UInt node)
 void Mesh::ComputeEdgesLengths()
 {
     auto const numEdges = GetNumEdges();
-    m_edgeLengths.resize(numEdges, constants::missing::doubleValue);
+    m_edgeLengths.assign(numEdges, constants::missing::doubleValue);
 
     // TODO could be openmp loop
     for (UInt e = 0; e < numEdges; e++)
-- 
2.43.0


From 2a25ec6fbd3d305e0ed56ed370e4576fd98001f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:02 +0000
Subject: [PATCH 45/99] fix: points in line with an edge are taken to be inside
 a polygon

---
 libs/MeshKernel/src/Operations.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index df7ddba..b9778ce 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -226,9 +226,11 @@ namespace meshkernel
 
                 const auto crossProductValue = crossProduct(polygonNodes[n], polygonNodes[n + 1], polygonNodes[n], point, Projection::cartesian);
 
-                if (IsEqual(crossProductValue, 0.0))
+                if (IsEqual(crossProductValue, 0.0) &&
+                    point.x >= std::min(polygonNodes[n].x, polygonNodes[n + 1].x) && point.x <= std::max(polygonNodes[n].x, polygonNodes[n + 1].x) &&
+                    point.y >= std::min(polygonNodes[n].y, polygonNodes[n + 1].y) && point.y <= std::max(polygonNodes[n].y, polygonNodes[n + 1].y))
                 {
-                    // point on the line
+                    // point on the edge
                     return true;
                 }
 
-- 
2.43.0


From 3e391ce6ea5f23f042da33d7ec425acae474433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:02 +0000
Subject: [PATCH 46/99] fix: averaging compares weights, not sample counts,
 with the minimum number of samples

---
 .../AveragingStrategies/InverseWeightedAveragingStrategy.cpp    | 2 +-
 .../src/AveragingStrategies/SimpleAveragingStrategy.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp b/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp
index 6582106..4890b93 100644
--- a/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp
+++ b/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp
@@ -47,7 +47,7 @@ namespace meshkernel::averaging
             result += weight * samples[i].value;
         }
 
-        return wall >= static_cast<double>(m_minNumSamples) ? result / wall : constants::missing::doubleValue;
+        return !samples.empty() && samples.size() >= m_minNumSamples ? result / wall : constants::missing::doubleValue;
     }
 
 } // namespace meshkernel::averaging
diff --git a/libs/MeshKernel/src/AveragingStrategies/SimpleAveragingStrategy.cpp b/libs/MeshKernel/src/AveragingStrategies/SimpleAveragingStrategy.cpp
index bfe8051..c93916c 100644
--- a/libs/MeshKernel/src/AveragingStrategies/SimpleAveragingStrategy.cpp
+++ b/libs/MeshKernel/src/AveragingStrategies/SimpleAveragingStrategy.cpp
@@ -40,7 +40,7 @@ namespace meshkernel::averaging
         auto sumSampleValue = [](double value, const Sample& sample)
         { return value + sample.value; };
         double result = std::accumulate(samples.begin(), samples.end(), 0.0, sumSampleValue);
-        return samples.size() >= m_minNumPoints ? result / static_cast<double>(samples.size()) : constants::missing::doubleValue;
+        return !samples.empty() && samples.size() >= m_minNumPoints ? result / static_cast<double>(samples.size()) : constants::missing::doubleValue;
     }
 
 } // namespace meshkernel::averaging
-- 
2.43.0


From 8eceb0726ca56c6d400ecc88e8e9ca9d964d127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:20 +0000
Subject: [PATCH 47/99] fix: dual face out of bounds and misaligned at nodes
 with an edge without faces

---
 libs/MeshKernel/src/Mesh2D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index ed61751..1870f33 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -1465,6 +1465,7 @@ std::vector<meshkernel::UInt> Mesh2D::SortedFacesAroundNode(UInt node) const
         // no faces for this edge
         if (m_edgesNumFaces[firstEdge] == 0)
         {
+            result.emplace_back(constants::missing::uintValue);
             continue;
         }
 
-- 
2.43.0


From 7d800eee5b8554b9c3f6ab84c467e0cda8fc59e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:21 +0000
Subject: [PATCH 48/99] fix: interpolation to a mesh with deleted nodes or
 edges fails or reads out of bounds

---
 libs/MeshKernel/src/AveragingInterpolation.cpp | 9 +++++++++
 libs/MeshKernelApi/src/MeshKernel.cpp          | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/libs/MeshKernel/src/AveragingInterpolation.cpp b/libs/MeshKernel/src/AveragingInterpolation.cpp
index 570ed54..6de00dd 100644
--- a/libs/MeshKernel/src/AveragingInterpolation.cpp
+++ b/libs/MeshKernel/src/AveragingInterpolation.cpp
@@ -77,6 +77,10 @@ void AveragingInterpolation::Compute()
         std::vector<Point> dualFacePolygon;
         for (UInt n = 0; n < m_mesh.GetNumNodes(); ++n)
         {
+            if (!m_mesh.Node(n).IsValid() || m_mesh.m_nodesNumEdges[n] == 0)
+            {
+                continue;
+            }
             m_mesh.MakeDualFace(n, m_relativeSearchRadius, dualFacePolygon);
             const auto result = ComputeOnPolygon(dualFacePolygon, m_mesh.Node(n));
             m_nodeResults[n] = result;
@@ -93,6 +97,11 @@ void AveragingInterpolation::Compute()
         {
             const auto& [first, second] = m_mesh.GetEdge(e);
 
+            if (first == constants::missing::uintValue || second == constants::missing::uintValue)
+            {
+                continue;
+            }
+
             const auto& firstValue = m_nodeResults[first];
             const auto& secondValue = m_nodeResults[second];
 
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 1934251..0b19496 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -5209,6 +5209,9 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The mesh is empty.");
             }
 
+            // The mesh may have been edited
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             auto sampleValues = ConvertGeometryListToSampleVector(samples);
             auto const meshLocation = static_cast<meshkernel::Location>(locationType);
             auto const averagingMethod = static_cast<meshkernel::AveragingInterpolation::Method>(averagingMethodType);
@@ -5267,6 +5270,9 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The mesh is empty.");
             }
 
+            // The mesh may have been edited
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             // Locations
             auto const sampleValues = ConvertGeometryListToSampleVector(samples);
             auto const meshLocation = static_cast<meshkernel::Location>(locationType);
-- 
2.43.0


From 11a0570cfd0135166e3aa5781477399187560f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:44 +0000
Subject: [PATCH 49/99] fix: no triangulation value where the search path
 passes through a sample

---
 .../src/TriangulationInterpolation.cpp          | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/libs/MeshKernel/src/TriangulationInterpolation.cpp b/libs/MeshKernel/src/TriangulationInterpolation.cpp
index fb4abc3..bf8d8b5 100644
--- a/libs/MeshKernel/src/TriangulationInterpolation.cpp
+++ b/libs/MeshKernel/src/TriangulationInterpolation.cpp
@@ -25,6 +25,8 @@
 //
 //------------------------------------------------------------------------------
 
+#include <algorithm>
+
 #include "MeshKernel/Constants.hpp"
 #include <MeshKernel/Entities.hpp>
 #include <MeshKernel/Exceptions.hpp>
@@ -127,6 +129,7 @@ void TriangulationInterpolation::Compute()
 
             // proceed to next triangle, which is adjacent to the edge that is cut by the line from the current triangle to the point location
             numFacesSearched++;
+            bool isNextTriangleFound = false;
             for (UInt i = 0; i < constants::geometric::numNodesInTriangle; ++i)
             {
                 const auto edge = triangulationWrapper.GetFaceEdge(triangle, i);
@@ -154,9 +157,23 @@ void TriangulationInterpolation::Compute()
                 if (areCrossing)
                 {
                     triangle = otherTriangle;
+                    isNextTriangleFound = true;
                     break;
                 }
             }
+
+            // the line to the location passes through a node: search all triangles
+            if (!isNextTriangleFound)
+            {
+                const auto containingTriangle = std::ranges::find_if(triangles, [&](const auto& nodes)
+                                                                     { return IsPointInPolygonNodes(m_locations[n], nodes, m_projection, trianglesCircumcenters[&nodes - triangles.data()]); });
+                if (containingTriangle != triangles.end())
+                {
+                    triangle = static_cast<UInt>(std::distance(triangles.begin(), containingTriangle));
+                    isInTriangle = true;
+                }
+                break;
+            }
         }
 
         if (isInTriangle && triangle != constants::missing::uintValue && static_cast<int>(triangle) < triangulationWrapper.GetNumFaces())
-- 
2.43.0


From aa3c7d1a9be9bb890db305aaff446fbc1d5f7552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:14 +0000
Subject: [PATCH 50/99] fix: nearest curvilinear face could be a face with
 missing nodes

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 1c0d624..a349568 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -1484,6 +1484,12 @@ std::vector<meshkernel::Point> CurvilinearGrid::ComputeFaceCenters() const
     {
         for (UInt m = 0; m < NumM() - 1; m++)
         {
+            if (!AreFaceNodesValid(n, m))
+            {
+                result.emplace_back(constants::missing::doubleValue, constants::missing::doubleValue);
+                continue;
+            }
+
             Point massCenter{0.0, 0.0};
 
             massCenter += GetNode(n, m);
-- 
2.43.0


From 8d109e057fbffe1bd00b2a7b62d8ee5c03bbd57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:54 +0000
Subject: [PATCH 51/99] fix: curvilinear insert face and line mirror at lines
 that are not a boundary, nearest edge with a missing node

---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp   | 64 +++++++++----------
 .../CurvilinearGridLineMirror.cpp             |  3 +-
 2 files changed, 32 insertions(+), 35 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index a349568..4c80025 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -682,6 +682,9 @@ meshkernel::UndoActionPtr CurvilinearGrid::InsertFace(Point const& point)
         throw std::invalid_argument("CurvilinearGrid::InsertFace: no valid nodes found");
     }
 
+    // Throws if the edge is not a boundary edge, before the grid is changed
+    [[maybe_unused]] auto const gridLineType = GetBoundaryGridLineType(firstNode, secondNode);
+
     std::unique_ptr<CompoundUndoAction> undoAction = CompoundUndoAction::Create();
 
     // Computing the node types may invalidate nodes of the entire grid
@@ -826,51 +829,41 @@ std::tuple<bool, meshkernel::UndoActionPtr> CurvilinearGrid::AddGridLineAtBounda
 
 CurvilinearGrid::BoundaryGridLineType CurvilinearGrid::GetBoundaryGridLineType(CurvilinearGridNodeIndices const& firstNode, CurvilinearGridNodeIndices const& secondNode) const
 {
-    auto const firstNodeType = GetNodeType(firstNode.m_n, firstNode.m_m);
-    auto const secondNodeType = GetNodeType(secondNode.m_n, secondNode.m_m);
+    const auto start = CurvilinearGridNodeIndices(std::min(firstNode.m_n, secondNode.m_n), std::min(firstNode.m_m, secondNode.m_m));
+    const auto end = CurvilinearGridNodeIndices(std::max(firstNode.m_n, secondNode.m_n), std::max(firstNode.m_m, secondNode.m_m));
 
-    if (firstNodeType == NodeType::InternalValid || firstNodeType == NodeType::Invalid ||
-        secondNodeType == NodeType::InternalValid || secondNodeType == NodeType::Invalid)
-    {
-        throw std::invalid_argument("CurvilinearGrid::GetBoundaryGridLineType: Not a boundary grid line");
-    }
+    // A line is a boundary grid line if there are faces at one side only
+    bool hasLowerFaces = false;
+    bool hasUpperFaces = false;
 
-    if (firstNodeType == NodeType::Bottom && secondNodeType == NodeType::Bottom)
-    {
-        return BoundaryGridLineType::Left;
-    }
-    if (firstNodeType == NodeType::Up && secondNodeType == NodeType::Up)
-    {
-        return BoundaryGridLineType::Right;
-    }
-    if (firstNodeType == NodeType::Left && secondNodeType == NodeType::Left)
+    if (start.m_m == end.m_m) // Left or Right
     {
-        return BoundaryGridLineType::Bottom;
+        for (UInt n = start.m_n; n < end.m_n; ++n)
+        {
+            hasLowerFaces = hasLowerFaces || (start.m_m > 0 && AreFaceNodesValid(n, start.m_m - 1));
+            hasUpperFaces = hasUpperFaces || (start.m_m + 1 < NumM() && AreFaceNodesValid(n, start.m_m));
+        }
     }
-    if (firstNodeType == NodeType::Right && secondNodeType == NodeType::Right)
+    else if (start.m_n == end.m_n) // Bottom or top
     {
-        return BoundaryGridLineType::Top;
+        for (UInt m = start.m_m; m < end.m_m; ++m)
+        {
+            hasLowerFaces = hasLowerFaces || (start.m_n > 0 && AreFaceNodesValid(start.m_n - 1, m));
+            hasUpperFaces = hasUpperFaces || (start.m_n + 1 < NumN() && AreFaceNodesValid(start.m_n, m));
+        }
     }
 
-    // Corner nodes
-    if (firstNode.m_m == secondNode.m_m) // Left or Right
+    if (hasLowerFaces == hasUpperFaces)
     {
-        if (firstNode.m_m + 1 < NumM() && GetNode(firstNode.m_n, firstNode.m_m + 1).IsValid() && GetNode(secondNode.m_n, secondNode.m_m + 1).IsValid())
-        {
-            return BoundaryGridLineType::Left;
-        }
-        return BoundaryGridLineType::Right;
+        throw std::invalid_argument("CurvilinearGrid::GetBoundaryGridLineType: Not a boundary grid line");
     }
-    if (firstNode.m_n == secondNode.m_n) // Bottom or top
+
+    if (start.m_m == end.m_m)
     {
-        if (firstNode.m_n + 1 < NumN() && GetNode(firstNode.m_n + 1, firstNode.m_m).IsValid() && GetNode(secondNode.m_n + 1, secondNode.m_m).IsValid())
-        {
-            return BoundaryGridLineType::Bottom;
-        }
-        return BoundaryGridLineType::Top;
+        return hasUpperFaces ? BoundaryGridLineType::Left : BoundaryGridLineType::Right;
     }
 
-    throw std::invalid_argument("CurvilinearGrid::GetBoundaryGridLineType: Invalid node types");
+    return hasUpperFaces ? BoundaryGridLineType::Bottom : BoundaryGridLineType::Top;
 }
 
 meshkernel::UndoActionPtr CurvilinearGrid::AddEdge(CurvilinearGridNodeIndices const& firstNode, CurvilinearGridNodeIndices const& secondNode)
@@ -1329,7 +1322,10 @@ std::vector<meshkernel::Point> CurvilinearGrid::ComputeEdgesCenters() const
     {
         const auto first = edgeIndex[0];
         const auto second = edgeIndex[1];
-        result[index] = (GetNode(first.m_n, first.m_m) + GetNode(second.m_n, second.m_m)) * 0.5;
+        if (GetNode(first.m_n, first.m_m).IsValid() && GetNode(second.m_n, second.m_m).IsValid())
+        {
+            result[index] = (GetNode(first.m_n, first.m_m) + GetNode(second.m_n, second.m_m)) * 0.5;
+        }
         index++;
     }
 
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
index 782a247..16f347e 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
@@ -61,10 +61,11 @@ meshkernel::UndoActionPtr CurvilinearGridLineMirror::Compute()
     const auto startNode = m_lines[0].m_startNode;
     const auto endNode = m_lines[0].m_endNode;
 
+    auto const gridLineType = m_grid.GetBoundaryGridLineType(startNode, endNode);
+
     // Computing the node types may invalidate nodes of the entire grid
     undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), m_grid.NumM()}));
     m_grid.ComputeGridNodeTypes();
-    auto const gridLineType = m_grid.GetBoundaryGridLineType(startNode, endNode);
 
     auto [addedLine, addGridLineAction] = m_grid.AddGridLineAtBoundary(startNode, endNode);
     m_grid.ComputeGridNodeTypes();
-- 
2.43.0


From 50f7ed286a7d478d67c9d5bd0fd0e3e782344900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:34 +0000
Subject: [PATCH 52/99] fix: curvilinear line mirror with missing nodes and at
 inner boundaries

---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp   | 119 +++++++++---------
 .../CurvilinearGridLineMirror.cpp             |  67 +++++-----
 2 files changed, 95 insertions(+), 91 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 4c80025..a6f3b6f 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -724,95 +724,88 @@ std::tuple<bool, meshkernel::UndoActionPtr> CurvilinearGrid::AddGridLineAtBounda
         throw ConstraintError("Second index {{{}, {}}} not in mesh limits {{{}, {}}}", secondNode.m_n, secondNode.m_m, NumN(), NumM());
     }
 
-    // If both nodes are invalid, we can substitute the invalid values. New allocation is not needed.
-    bool const areNodesValid = GetNode(firstNode.m_n, firstNode.m_m).IsValid() && GetNode(secondNode.m_n, secondNode.m_m).IsValid();
-
     // Allocation depends on directions
     bool gridSizeChanged = false;
     auto const gridLineType = GetBoundaryGridLineType(firstNode, secondNode);
 
     UndoActionPtr undoAction;
 
-    if (areNodesValid)
+    if (gridLineType == BoundaryGridLineType::Bottom)
     {
-
-        if (gridLineType == BoundaryGridLineType::Bottom)
+        if (firstNode.m_n == 0 || secondNode.m_n == 0)
         {
-            if (firstNode.m_n == 0 || secondNode.m_n == 0)
-            {
 
-                // n-direction
-                if (m_startOffset.m_n == 0)
-                {
-                    lin_alg::InsertRow(m_gridNodes, lin_alg::RowVector<Point>(FullNumM()), 0);
-                }
-                else
-                {
-                    m_startOffset.m_n -= 1;
-                }
-
-                undoAction = AddGridLineUndoAction::Create(*this, {1, 0}, {0, 0});
-                gridSizeChanged = true;
+            // n-direction
+            if (m_startOffset.m_n == 0)
+            {
+                lin_alg::InsertRow(m_gridNodes, lin_alg::RowVector<Point>(FullNumM()), 0);
+            }
+            else
+            {
+                m_startOffset.m_n -= 1;
             }
+
+            undoAction = AddGridLineUndoAction::Create(*this, {1, 0}, {0, 0});
+            gridSizeChanged = true;
         }
+    }
 
-        if (gridLineType == BoundaryGridLineType::Top)
+    if (gridLineType == BoundaryGridLineType::Top)
+    {
+        if (firstNode.m_n == NumN() - 1 || secondNode.m_n == NumN() - 1)
         {
-            if (firstNode.m_n == NumN() - 1 || secondNode.m_n == NumN() - 1)
+            // n-direction
+            if (m_endOffset.m_n == 0)
             {
-                // n-direction
-                if (m_endOffset.m_n == 0)
-                {
-                    lin_alg::InsertRow(m_gridNodes, lin_alg::RowVector<Point>(FullNumM()), FullNumN());
-                }
-                else
-                {
-                    m_endOffset.m_n -= 1;
-                }
-
-                undoAction = AddGridLineUndoAction::Create(*this, {0, 0}, {1, 0});
-                gridSizeChanged = true;
+                lin_alg::InsertRow(m_gridNodes, lin_alg::RowVector<Point>(FullNumM()), FullNumN());
             }
+            else
+            {
+                m_endOffset.m_n -= 1;
+            }
+
+            undoAction = AddGridLineUndoAction::Create(*this, {0, 0}, {1, 0});
+            gridSizeChanged = true;
         }
+    }
 
-        if (gridLineType == BoundaryGridLineType::Right)
+    if (gridLineType == BoundaryGridLineType::Right)
+    {
+        if (firstNode.m_m == NumM() - 1 || secondNode.m_m == NumM() - 1)
         {
-            if (firstNode.m_m == NumM() - 1 || secondNode.m_m == NumM() - 1)
+            // m-direction
+            if (m_endOffset.m_m == 0)
             {
-                // m-direction
-                if (m_endOffset.m_m == 0)
-                {
-                    lin_alg::InsertCol(m_gridNodes, lin_alg::ColVector<Point>(FullNumN()), FullNumM());
-                }
-                else
-                {
-                    m_endOffset.m_m -= 1;
-                }
-
-                undoAction = AddGridLineUndoAction::Create(*this, {0, 0}, {0, 1});
-                gridSizeChanged = true;
+                lin_alg::InsertCol(m_gridNodes, lin_alg::ColVector<Point>(FullNumN()), FullNumM());
+            }
+            else
+            {
+                m_endOffset.m_m -= 1;
             }
+
+            undoAction = AddGridLineUndoAction::Create(*this, {0, 0}, {0, 1});
+            gridSizeChanged = true;
         }
+    }
 
-        if (gridLineType == BoundaryGridLineType::Left)
+    if (gridLineType == BoundaryGridLineType::Left)
+    {
+
+        if (firstNode.m_m == 0 || secondNode.m_m == 0)
         {
 
-            if (firstNode.m_m == 0 || secondNode.m_m == 0)
+            // m-direction
+            if (m_startOffset.m_m == 0)
             {
-
-                // m-direction
-                if (m_startOffset.m_m == 0)
-                {
-                    lin_alg::InsertCol(m_gridNodes, lin_alg::ColVector<Point>(FullNumN()), 0);
-                }
-                else
-                {
-                    m_startOffset.m_m -= 1;
-                }
-
-                undoAction = AddGridLineUndoAction::Create(*this, {0, 1}, {0, 0});
-                gridSizeChanged = true;
+                lin_alg::InsertCol(m_gridNodes, lin_alg::ColVector<Point>(FullNumN()), 0);
             }
+            else
+            {
+                m_startOffset.m_m -= 1;
+            }
+
+            undoAction = AddGridLineUndoAction::Create(*this, {0, 1}, {0, 0});
+            gridSizeChanged = true;
         }
     }
 
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
index 16f347e..32b436c 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
@@ -77,56 +77,67 @@ meshkernel::UndoActionPtr CurvilinearGridLineMirror::Compute()
     CurvilinearGridNodeIndices lowerLeft;
     CurvilinearGridNodeIndices upperRight;
 
+    // The indices of the mirrored line, of the line to mirror about and of the line to be mirrored
+    UInt mirroredLine = 0;
+    UInt boundaryLine = 0;
+    UInt interiorLine = 0;
+
     using enum CurvilinearGrid::BoundaryGridLineType;
 
     switch (gridLineType)
     {
     case Bottom:
-        lowerLeft = {0, m_lines[0].m_startCoordinate};
-        upperRight = {1, m_lines[0].m_endCoordinate + 1};
+        mirroredLine = addedLine ? 0 : startNode.m_n - 1;
+        boundaryLine = mirroredLine + 1;
+        interiorLine = mirroredLine + 2;
         break;
     case Top:
-        lowerLeft = {m_grid.NumN() - 1, m_lines[0].m_startCoordinate};
-        upperRight = {m_grid.NumN() - 0, m_lines[0].m_endCoordinate + 1};
+        mirroredLine = startNode.m_n + 1;
+        boundaryLine = mirroredLine - 1;
+        interiorLine = mirroredLine - 2;
         break;
     case Right:
-        lowerLeft = {m_lines[0].m_startCoordinate, m_grid.NumM() - 1};
-        upperRight = {m_lines[0].m_endCoordinate + 1, m_grid.NumM() - 0};
+        mirroredLine = startNode.m_m + 1;
+        boundaryLine = mirroredLine - 1;
+        interiorLine = mirroredLine - 2;
         break;
     case Left:
-        lowerLeft = {m_lines[0].m_startCoordinate, 0};
-        upperRight = {m_lines[0].m_endCoordinate + 1, 1};
+        mirroredLine = addedLine ? 0 : startNode.m_m - 1;
+        boundaryLine = mirroredLine + 1;
+        interiorLine = mirroredLine + 2;
         break;
     default:
         throw std::invalid_argument("CurvilinearGridLineMirror:: Invalid grid line type");
     }
 
+    const bool isRow = gridLineType == Bottom || gridLineType == Top;
+
+    if (isRow)
+    {
+        lowerLeft = {mirroredLine, m_lines[0].m_startCoordinate};
+        upperRight = {mirroredLine + 1, m_lines[0].m_endCoordinate + 1};
+    }
+    else
+    {
+        lowerLeft = {m_lines[0].m_startCoordinate, mirroredLine};
+        upperRight = {m_lines[0].m_endCoordinate + 1, mirroredLine + 1};
+    }
+
     undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, lowerLeft, upperRight));
 
     for (auto i = m_lines[0].m_startCoordinate; i <= m_lines[0].m_endCoordinate; ++i)
     {
-        if (gridLineType == Bottom)
-        {
-            m_grid.GetNode(0, i) = m_grid.GetNode(1, i) * a +
-                                   m_grid.GetNode(2, i) * b;
-        }
-        if (gridLineType == Top)
-        {
-            auto const last_row = (UInt)m_grid.NumN() - 1;
-            m_grid.GetNode(last_row, i) = m_grid.GetNode(last_row - 1, i) * a +
-                                          m_grid.GetNode(last_row - 2, i) * b;
-        }
-        if (gridLineType == Right)
-        {
-            auto const last_col = (UInt)m_grid.NumM() - 1;
-            m_grid.GetNode(i, last_col) = m_grid.GetNode(i, last_col - 1) * a +
-                                          m_grid.GetNode(i, last_col - 2) * b;
-        }
-        if (gridLineType == Left)
+        const Point boundaryNode = isRow ? m_grid.GetNode(boundaryLine, i) : m_grid.GetNode(i, boundaryLine);
+        const Point interiorNode = isRow ? m_grid.GetNode(interiorLine, i) : m_grid.GetNode(i, interiorLine);
+
+        // Missing nodes cannot be mirrored
+        if (!boundaryNode.IsValid() || !interiorNode.IsValid())
         {
-            m_grid.GetNode(i, 0) = m_grid.GetNode(i, 1) * a +
-                                   m_grid.GetNode(i, 2) * b;
+            continue;
         }
+
+        Point& mirroredNode = isRow ? m_grid.GetNode(mirroredLine, i) : m_grid.GetNode(i, mirroredLine);
+        mirroredNode = boundaryNode * a + interiorNode * b;
     }
 
     return undoAction;
-- 
2.43.0


From 70193156d53875852fff149f8858dee3020d800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:41 +0000
Subject: [PATCH 53/99] fix: reject node and edge indices that are out of range
 when a mesh is set or edited

---
 libs/MeshKernel/src/Mesh.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 50c85d5..8bfe43c 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -66,6 +66,16 @@ Mesh::Mesh(const std::vector<Edge>& edges,
     m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
     m_RTreesProjection = m_projection;
+
+    for (const auto& [firstNode, secondNode] : m_edges)
+    {
+        if ((firstNode != constants::missing::uintValue && firstNode >= m_nodes.size()) ||
+            (secondNode != constants::missing::uintValue && secondNode >= m_nodes.size()))
+        {
+            throw ConstraintError("An edge connects nodes {} and {}, but the number of nodes is {}", firstNode, secondNode, m_nodes.size());
+        }
+    }
+
     DeleteInvalidNodesAndEdges();
 }
 
@@ -489,6 +499,11 @@ std::tuple<meshkernel::UInt, std::unique_ptr<meshkernel::AddNodeAction>> Mesh::I
 
 std::tuple<meshkernel::UInt, std::unique_ptr<meshkernel::AddEdgeAction>> Mesh::ConnectNodes(UInt startNode, UInt endNode)
 {
+    if (endNode >= GetNumNodes())
+    {
+        throw ConstraintError("The node index, {}, is not in range.", endNode);
+    }
+
     if (FindEdge(startNode, endNode) != constants::missing::uintValue)
     {
         return {constants::missing::uintValue, nullptr};
@@ -553,7 +568,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::DeleteDuplicateEdges()
 
 std::unique_ptr<meshkernel::DeleteEdgeAction> Mesh::DeleteEdge(UInt edge)
 {
-    if (edge == constants::missing::uintValue) [[unlikely]]
+    if (edge >= GetNumEdges()) [[unlikely]]
     {
         throw std::invalid_argument("Mesh::DeleteEdge: The index of the edge to be deleted does not exist.");
     }
@@ -654,7 +669,7 @@ meshkernel::UInt Mesh::FindCommonNode(UInt firstEdgeIndex, UInt secondEdgeIndex)
 
 meshkernel::UInt Mesh::FindEdge(UInt firstNodeIndex, UInt secondNodeIndex) const
 {
-    if (firstNodeIndex == constants::missing::uintValue || secondNodeIndex == constants::missing::uintValue)
+    if (firstNodeIndex >= m_nodesNumEdges.size() || secondNodeIndex == constants::missing::uintValue)
     {
         throw ConstraintError("Mesh::FindEdge: Invalid node index: first {}, second {}", firstNodeIndex, secondNodeIndex);
     }
-- 
2.43.0


From 0f7a73b02230f26188a85a0f7e6365ac4a6e3d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:41 +0000
Subject: [PATCH 54/99] fix: offset of polygons with holes or of several
 polygons

---
 libs/MeshKernel/src/Polygons.cpp | 51 +++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/libs/MeshKernel/src/Polygons.cpp b/libs/MeshKernel/src/Polygons.cpp
index 2d3aa21..c45bc17 100644
--- a/libs/MeshKernel/src/Polygons.cpp
+++ b/libs/MeshKernel/src/Polygons.cpp
@@ -190,37 +190,46 @@ std::vector<meshkernel::Point> Polygons::LinearRefinePolygon(UInt polygonIndex,
 
 meshkernel::Polygons Polygons::OffsetCopy(double distance, bool innerAndOuter) const
 {
-    UInt totalNumberOfPoints = GetNumNodes();
-    // TODO Should the invalid points between enclosures be added too.
-    // TODO use the correct separators between enclosures and inner polygons.
-    std::vector<Point> newPolygonPoints(totalNumberOfPoints + (innerAndOuter ? totalNumberOfPoints + 1 : 0), Point());
+    const Point outerSeparator{constants::missing::doubleValue, constants::missing::doubleValue};
+    const Point innerSeparator{constants::missing::innerOuterSeparator, constants::missing::innerOuterSeparator};
 
-    UInt innerCount = 0;
-    UInt outerCount = totalNumberOfPoints;
+    std::vector<Point> newPolygonPoints;
+    std::vector<Point> oppositePolygonPoints;
 
-    for (const PolygonalEnclosure& enclosure : m_enclosures)
+    auto addOffset = [&](const Polygon& polygon)
     {
-        std::vector<Point> outerOffsetPoints(enclosure.Outer().ComputeOffset(distance, innerAndOuter));
+        const auto offsetPoints = polygon.ComputeOffset(distance, innerAndOuter);
+        newPolygonPoints.insert(newPolygonPoints.end(), offsetPoints.begin(), offsetPoints.begin() + polygon.Size());
 
-        for (size_t i = 0; i < outerOffsetPoints.size(); ++i)
+        if (innerAndOuter)
         {
-            newPolygonPoints[innerCount] = outerOffsetPoints[i];
-            ++innerCount;
+            // The points with the opposite offset come after a separator
+            oppositePolygonPoints.insert(oppositePolygonPoints.end(), offsetPoints.begin() + polygon.Size() + 1, offsetPoints.end());
         }
+    };
 
-        for (size_t i = 0; i < enclosure.NumberOfInner(); ++i)
+    for (size_t i = 0; i < m_enclosures.size(); ++i)
+    {
+        if (i > 0)
         {
-            std::vector<Point> innerOffsetPoints(enclosure.Inner(i).ComputeOffset(distance, innerAndOuter));
-            // Probably add inner separator here (if not the last)
-
-            for (size_t j = 0; j < outerOffsetPoints.size(); ++j)
-            {
-                newPolygonPoints[outerCount] = outerOffsetPoints[j];
-                ++outerCount;
-            }
+            newPolygonPoints.emplace_back(outerSeparator);
+            oppositePolygonPoints.emplace_back(outerSeparator);
         }
 
-        // Probably add outer separator here (if not the last)
+        addOffset(m_enclosures[i].Outer());
+
+        for (UInt j = 0; j < m_enclosures[i].NumberOfInner(); ++j)
+        {
+            newPolygonPoints.emplace_back(innerSeparator);
+            oppositePolygonPoints.emplace_back(innerSeparator);
+            addOffset(m_enclosures[i].Inner(j));
+        }
+    }
+
+    if (innerAndOuter)
+    {
+        newPolygonPoints.emplace_back(outerSeparator);
+        newPolygonPoints.insert(newPolygonPoints.end(), oppositePolygonPoints.begin(), oppositePolygonPoints.end());
     }
 
     // set the new polygon
-- 
2.43.0


From 2b9b0b3fd69a68cc5c79c67f3e94d72593098284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:54 +0000
Subject: [PATCH 55/99] fix: report an error when an interactive algorithm is
 used before it is initialised

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 30 +++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 0b19496..0393255 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1332,6 +1332,11 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization == nullptr)
+            {
+                throw meshkernel::MeshKernelError("Mesh orthogonalization algorithm instance is null.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->PrepareOuterIteration();
         }
         catch (...)
@@ -1356,6 +1361,11 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization == nullptr)
+            {
+                throw meshkernel::MeshKernelError("Mesh orthogonalization algorithm instance is null.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->Solve();
         }
         catch (...)
@@ -1414,6 +1424,11 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization == nullptr)
+            {
+                throw meshkernel::MeshKernelError("Mesh orthogonalization algorithm instance is null.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->FinalizeOuterIteration();
         }
         catch (...)
@@ -4644,6 +4659,11 @@ namespace meshkernelapi
             meshkernel::Point const firstNode{xFirstGridLineNode, yFirstGridLineNode};
             meshkernel::Point const secondNode{xSecondGridLineNode, ySecondGridLineNode};
 
+            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
+            {
+                throw meshkernel::MeshKernelError("Curvilinear grid line shift algorithm instance is null.");
+            }
+
             meshKernelState[meshKernelId].m_curvilinearGridLineShift->SetLine(firstNode, secondNode);
         }
         catch (...)
@@ -4706,6 +4726,11 @@ namespace meshkernelapi
             meshkernel::Point const lowerLeftPoint{xLowerLeftCorner, yLowerLeftCorner};
             meshkernel::Point const upperRightPoint{xUpperRightCorner, yUpperRightCorner};
 
+            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
+            {
+                throw meshkernel::MeshKernelError("Curvilinear grid line shift algorithm instance is null.");
+            }
+
             meshKernelState[meshKernelId].m_curvilinearGridLineShift->SetBlock(lowerLeftPoint, upperRightPoint);
         }
         catch (...)
@@ -4730,6 +4755,11 @@ namespace meshkernelapi
             }
             meshkernel::Point const fromPoint{xFromCoordinate, yFromCoordinate};
             meshkernel::Point const toPoint{xToCoordinate, yToCoordinate};
+            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
+            {
+                throw meshkernel::MeshKernelError("Curvilinear grid line shift algorithm instance is null.");
+            }
+
             meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_curvilinearGridLineShift->MoveNode(fromPoint, toPoint), meshKernelId);
         }
         catch (...)
-- 
2.43.0


From 48790fee4cea621004b899908a69455b9a72d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:41 +0000
Subject: [PATCH 56/99] fix: reject out-of-range arguments of grid generation,
 triangulation, snapping and ridge refinement

---
 .../MeshKernel/TriangulationWrapper.hpp       |  4 ++++
 .../CurvilinearGridFromPolygon.cpp            | 12 ++++++++++
 .../CurvilinearGridRefinement.cpp             |  7 ++++++
 .../src/SamplesHessianCalculator.cpp          |  5 ++++
 libs/MeshKernelApi/src/MeshKernel.cpp         | 24 ++++++++++++++++---
 5 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp b/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
index 16a7809..e7140cf 100644
--- a/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
+++ b/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
@@ -88,6 +88,10 @@ namespace meshkernel
             {
                 throw ConstraintError("The sample is empty.");
             }
+            if (inputNodes.size() < 3)
+            {
+                throw ConstraintError("A triangulation needs at least three points: number of points = {}", inputNodes.size());
+            }
             std::vector<double> xLocalPolygon(inputNodes.size());
             std::vector<double> yLocalPolygon(inputNodes.size());
             for (UInt i = 0; i < inputNodes.size(); ++i)
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
index 4262773..8e674d1 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
@@ -45,6 +45,12 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridFromPolygon::Compute(UInt firstN
         throw ConstraintError("The polygon does not contain sufficient nodes: count = {}", m_polygon.Size());
     }
 
+    if (firstNode >= m_polygon.Size() || secondNode >= m_polygon.Size() || thirdNode >= m_polygon.Size())
+    {
+        throw ConstraintError("Invalid node selection, the polygon has {} nodes: first = {}, second = {}, third = {}",
+                              m_polygon.Size(), firstNode, secondNode, thirdNode);
+    }
+
     const auto areNodesValid = firstNode != secondNode &&
                                secondNode != thirdNode &&
                                firstNode != thirdNode;
@@ -230,6 +236,12 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridFromPolygon::Compute(UInt firstN
         throw ConstraintError("The polygon does not contain sufficient nodes: count = {}", m_polygon.Size());
     }
 
+    if (firstNode >= m_polygon.Size() || secondNode >= m_polygon.Size() || thirdNode >= m_polygon.Size())
+    {
+        throw ConstraintError("Invalid node selection, the polygon has {} nodes: first = {}, second = {}, third = {}",
+                              m_polygon.Size(), firstNode, secondNode, thirdNode);
+    }
+
     const auto areNodesValid = firstNode != secondNode &&
                                secondNode != thirdNode &&
                                firstNode != thirdNode;
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRefinement.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRefinement.cpp
index 49f8a64..af0f95d 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRefinement.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRefinement.cpp
@@ -26,6 +26,8 @@
 //------------------------------------------------------------------------------
 
 #include <MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp>
+#include <limits>
+
 #include <MeshKernel/CurvilinearGrid/CurvilinearGridRefinement.hpp>
 #include <MeshKernel/CurvilinearGrid/UndoActions/CurvilinearGridRefinementUndoAction.hpp>
 #include <MeshKernel/Entities.hpp>
@@ -44,6 +46,11 @@ CurvilinearGridRefinement::CurvilinearGridRefinement(CurvilinearGrid& grid, UInt
 
 meshkernel::UndoActionPtr CurvilinearGridRefinement::Compute()
 {
+    // A negative refinement passed as an unsigned value is out of range too
+    if (m_refinement < 1 || m_refinement > static_cast<UInt>(std::numeric_limits<int>::max()))
+    {
+        throw ConstraintError("The refinement factor must be at least 1");
+    }
 
     if (!m_lowerLeft.IsValid() || !m_upperRight.IsValid())
     {
diff --git a/libs/MeshKernel/src/SamplesHessianCalculator.cpp b/libs/MeshKernel/src/SamplesHessianCalculator.cpp
index b3cde55..9632f33 100644
--- a/libs/MeshKernel/src/SamplesHessianCalculator.cpp
+++ b/libs/MeshKernel/src/SamplesHessianCalculator.cpp
@@ -339,6 +339,11 @@ std::vector<meshkernel::Sample> meshkernel::SamplesHessianCalculator::ComputeSam
                               rawSamplePoints.size(), numX, numY, numX * numY);
     }
 
+    if (numX < 2 || numY < 2)
+    {
+        throw ConstraintError("The number of gridded samples is too small: num-x {} and num-y {}", numX, numY);
+    }
+
     std::vector<Sample> result = rawSamplePoints;
 
     Hessian hessian(2, numY, numX);
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 0393255..928145d 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1747,6 +1747,11 @@ namespace meshkernelapi
             // generate samples in all polygons
             auto const generatedPoints = polygon.ComputePointsInPolygons();
 
+            if (generatedPoints.empty())
+            {
+                throw meshkernel::ConstraintError("No polygon has been given.");
+            }
+
             const meshkernel::Mesh2D mesh(generatedPoints[0], polygon, meshKernelState[meshKernelId].m_mesh2d->m_projection);
             meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->Join(mesh), meshKernelId);
         }
@@ -2762,6 +2767,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The mesh refinement type in MeshRefinementParameters must be set equal to ridge refinement.");
             }
 
+            if (numberOfSmoothingIterations < 0)
+            {
+                throw meshkernel::ConstraintError("The number of smoothing iterations is negative: {}", numberOfSmoothingIterations);
+            }
+
             const auto samplesVector = ConvertGriddedData(samples);
 
             auto samplesHessian = meshkernel::SamplesHessianCalculator::ComputeSamplesHessian(samplesVector,
@@ -3351,10 +3361,18 @@ namespace meshkernelapi
 
             const std::vector<meshkernel::Point>& snappedPolygonPoints = polygons.Enclosure(enclosureIndex).Outer().Nodes();
 
-            for (int i = 0; i < polygon.num_coordinates; ++i)
+            if (static_cast<int>(polygonPoints.size()) != polygon.num_coordinates)
+            {
+                throw meshkernel::ConstraintError("The polygon has consecutive points with the same coordinates.");
+            }
+
+            // The first point of the enclosure in the list of polygon points
+            const int enclosureStart = startIndex - static_cast<int>(polygonStartNode);
+
+            for (int i = 0; i < static_cast<int>(snappedPolygonPoints.size()); ++i)
             {
-                polygon.coordinates_x[i] = snappedPolygonPoints[i].x;
-                polygon.coordinates_y[i] = snappedPolygonPoints[i].y;
+                polygon.coordinates_x[enclosureStart + i] = snappedPolygonPoints[i].x;
+                polygon.coordinates_y[enclosureStart + i] = snappedPolygonPoints[i].y;
             }
         }
         catch (...)
-- 
2.43.0


From 87c199cfc39f977ec5e5ace3f6426c6fc39abcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:41 +0000
Subject: [PATCH 57/99] fix: report errors for missing nodes, empty polylines
 and invalid ranges instead of reading out of bounds

---
 libs/MeshKernel/src/Network1D.cpp     |  5 ++++
 libs/MeshKernel/src/Polygon.cpp       |  5 ++++
 libs/MeshKernelApi/src/MeshKernel.cpp | 38 ++++++++++++++++++++++++---
 3 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/libs/MeshKernel/src/Network1D.cpp b/libs/MeshKernel/src/Network1D.cpp
index d700494..6908335 100644
--- a/libs/MeshKernel/src/Network1D.cpp
+++ b/libs/MeshKernel/src/Network1D.cpp
@@ -41,6 +41,11 @@ Network1D::Network1D(std::vector<std::vector<Point>> const& polyLines,
     // start and end polyline chainages should always be accounted for
     for (UInt i = 0; i < m_polyLines.size(); ++i)
     {
+        if (m_polyLines[i].empty())
+        {
+            throw std::invalid_argument("Network1D::Network1D: A polyline without points has been given");
+        }
+
         auto const nodalChainages = ComputePolyLineNodalChainages(m_polyLines[i], projection);
         m_chainages[i].push_back(nodalChainages.front());
         m_chainages[i].push_back(nodalChainages.back());
diff --git a/libs/MeshKernel/src/Polygon.cpp b/libs/MeshKernel/src/Polygon.cpp
index a8814be..419300c 100644
--- a/libs/MeshKernel/src/Polygon.cpp
+++ b/libs/MeshKernel/src/Polygon.cpp
@@ -388,6 +388,11 @@ std::vector<meshkernel::Point> meshkernel::Polygon::Refine(const UInt startIndex
         throw ConstraintError("The indices are not valid: {}, {}.", startIndex, endIndex);
     }
 
+    if (refinementDistance <= 0.0)
+    {
+        throw ConstraintError("The refinement distance must be positive: {}.", refinementDistance);
+    }
+
     std::vector<Point> refinedPolygon;
     const auto iStart = static_cast<std::vector<Point>::difference_type>(startIndex);
     const auto iEnd = static_cast<std::vector<Point>::difference_type>(endIndex);
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 928145d..67f6ec2 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2947,6 +2947,15 @@ namespace meshkernelapi
                                                                                            xUpperRightBoundingBox,
                                                                                            yUpperRightBoundingBox,
                                                                                            nodeIndex));
+            if (lastExitCode != meshkernel::ExitCode::Success)
+            {
+                return lastExitCode;
+            }
+
+            if (nodeIndex < 0)
+            {
+                throw meshkernel::ConstraintError("No node found within the search radius.");
+            }
 
             // Set the node coordinate
             const auto foundNode = meshKernelState[meshKernelId].m_mesh2d->Node(nodeIndex);
@@ -3251,6 +3260,13 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("Spline data is null.");
             }
 
+            if (startSplineIndex < 0 || endSplineIndex < startSplineIndex)
+            {
+                throw meshkernel::ConstraintError("Invalid spline range: {} .. {}",
+                                                  startSplineIndex,
+                                                  endSplineIndex);
+            }
+
             if (startSplineIndex > splines.num_coordinates)
             {
                 throw meshkernel::ConstraintError("Invalid spline range: start greater than number of spline coordinates {} > {}",
@@ -3271,7 +3287,12 @@ namespace meshkernelapi
             meshkernel::LandBoundary landBoundary(landBoundaryPoints);
             meshkernel::Splines splineValues(meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
-            splineValues.AddSpline(splinePoints, startSplineIndex, static_cast<meshkernel::UInt>(splinePoints.size()));
+            if (endSplineIndex >= static_cast<int>(splinePoints.size()))
+            {
+                throw meshkernel::ConstraintError("The splines have consecutive points with the same coordinates.");
+            }
+
+            splineValues.AddSpline(splinePoints, startSplineIndex, static_cast<meshkernel::UInt>(endSplineIndex - startSplineIndex + 1));
 
             //--------------------------------
             // Snap specified splines to the land boundary
@@ -3285,7 +3306,7 @@ namespace meshkernelapi
             // Now copy back to spline (geometry-list)
             for (int i = startSplineIndex; i <= endSplineIndex; ++i)
             {
-                const meshkernel::Point& splinePoint = splineValues.m_splineNodes[0][i];
+                const meshkernel::Point& splinePoint = splineValues.m_splineNodes[0][i - startSplineIndex];
                 splines.coordinates_x[splinePointIndex] = splinePoint.x;
                 splines.coordinates_y[splinePointIndex] = splinePoint.y;
                 ++splinePointIndex;
@@ -5426,7 +5447,18 @@ namespace meshkernelapi
     MKERNEL_API int mkernel_get_projection(int meshKernelId, int& projection)
     {
         lastExitCode = meshkernel::ExitCode::Success;
-        projection = static_cast<int>(meshKernelState[meshKernelId].m_projection);
+        try
+        {
+            if (!meshKernelState.contains(meshKernelId))
+            {
+                throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
+            }
+            projection = static_cast<int>(meshKernelState[meshKernelId].m_projection);
+        }
+        catch (...)
+        {
+            lastExitCode = HandleException();
+        }
         return lastExitCode;
     }
 
-- 
2.43.0


From 923466ecd5907237760e482014a459cb6e06fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:59 +0000
Subject: [PATCH 58/99] fix: orthogonalization in spherical accurate
 coordinates used local coordinates that were never computed

---
 .../OrthogonalizationAndSmoothing.hpp         |  2 --
 .../src/OrthogonalizationAndSmoothing.cpp     | 26 +++++++++++--------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/OrthogonalizationAndSmoothing.hpp b/libs/MeshKernel/include/MeshKernel/OrthogonalizationAndSmoothing.hpp
index f6deee4..087b9dd 100644
--- a/libs/MeshKernel/include/MeshKernel/OrthogonalizationAndSmoothing.hpp
+++ b/libs/MeshKernel/include/MeshKernel/OrthogonalizationAndSmoothing.hpp
@@ -148,8 +148,6 @@ namespace meshkernel
         LandBoundaries::ProjectToLandBoundaryOption m_projectToLandBoundaryOption; ///< The project to land boundary option
         OrthogonalizationParameters m_orthogonalizationParameters;                 ///< The orthogonalization parameters
 
-        std::vector<UInt> m_localCoordinatesIndices; ///< Used in sphericalAccurate projection (iloc)
-        std::vector<Point> m_localCoordinates;       ///< Used in sphericalAccurate projection (xloc,yloc)
         std::vector<Point> m_orthogonalCoordinates;  ///< A copy of the mesh node, orthogonalized
         std::vector<Point> m_originalNodes;          ///< The original mesh
 
diff --git a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
index eb6f974..88d3368 100644
--- a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
+++ b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
@@ -93,15 +93,6 @@ std::unique_ptr<meshkernel::UndoAction> OrthogonalizationAndSmoothing::Initializ
         {
             PrepareOuterIteration();
         }
-
-        m_localCoordinatesIndices.resize(m_mesh.GetNumNodes() + 1);
-        m_localCoordinatesIndices[0] = 1;
-        for (UInt n = 0; n < m_mesh.GetNumNodes(); ++n)
-        {
-            m_localCoordinatesIndices[n + 1] = m_localCoordinatesIndices[n] + std::max(m_mesh.m_nodesNumEdges[n] + 1, m_smoother->GetNumConnectedNodes(n));
-        }
-
-        m_localCoordinates.resize(m_localCoordinatesIndices.back() - 1, {constants::missing::doubleValue, constants::missing::doubleValue});
     }
 
     return undoAction;
@@ -436,8 +427,21 @@ void OrthogonalizationAndSmoothing::ComputeLocalIncrements(UInt nodeIndex, doubl
             const double wwxTransformed = wwx * constants::geometric::earth_radius * constants::conversion::degToRad;
             const double wwyTransformed = wwy * constants::geometric::earth_radius * constants::conversion::degToRad;
 
-            dx0 = dx0 + wwxTransformed * m_localCoordinates[m_localCoordinatesIndices[nodeIndex] + currentNode - 1].x;
-            dy0 = dy0 + wwyTransformed * m_localCoordinates[m_localCoordinatesIndices[nodeIndex] + currentNode - 1].y;
+            // The connected node in the local reference frame of the current node
+            std::array<double, 3> exxp{0.0, 0.0, 0.0};
+            std::array<double, 3> eyyp{0.0, 0.0, 0.0};
+            std::array<double, 3> ezzp{0.0, 0.0, 0.0};
+            ComputeThreeBaseComponents(m_mesh.Node(nodeIndex), exxp, eyyp, ezzp);
+
+            const Cartesian3DPoint cartesianPoint{SphericalToCartesian3D(m_mesh.Node(currentNode))};
+            Cartesian3DPoint cartesianLocalPoint;
+            cartesianLocalPoint.x = exxp[0] * cartesianPoint.x + exxp[1] * cartesianPoint.y + exxp[2] * cartesianPoint.z;
+            cartesianLocalPoint.y = eyyp[0] * cartesianPoint.x + eyyp[1] * cartesianPoint.y + eyyp[2] * cartesianPoint.z;
+            cartesianLocalPoint.z = ezzp[0] * cartesianPoint.x + ezzp[1] * cartesianPoint.y + ezzp[2] * cartesianPoint.z;
+            const auto localPoint = Cartesian3DToSpherical(cartesianLocalPoint, 0.0);
+
+            dx0 = dx0 + wwxTransformed * localPoint.x;
+            dy0 = dy0 + wwyTransformed * localPoint.y;
             weightsSum[0] += wwxTransformed;
             weightsSum[1] += wwyTransformed;
         }
-- 
2.43.0


From 860e28aae150ae7fcfc23c491e16d8c5bd48731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:59 +0000
Subject: [PATCH 59/99] fix: reject a negative number of smoothing iterations
 and layers out of range

---
 .../src/CurvilinearGrid/CurvilinearGridFromSplines.cpp |  5 +++++
 libs/MeshKernelApi/src/MeshKernel.cpp                  | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
index 96b1228..fcf4c03 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
@@ -396,6 +396,11 @@ namespace meshkernel
 
     void CurvilinearGridFromSplines::Iterate(UInt layer)
     {
+        if (layer < 1 || layer >= static_cast<UInt>(m_gridPoints.rows()))
+        {
+            throw ConstraintError("The layer is out of range: {}, number of layers {}", layer, m_gridPoints.rows());
+        }
+
         GrowLayer(layer);
 
         for (UInt j = 0; j < m_subLayerGridPoints.size(); ++j)
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 67f6ec2..a00949e 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4570,6 +4570,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel state does not exist.");
             }
 
+            if (smoothingIterations < 0)
+            {
+                throw meshkernel::ConstraintError("The number of smoothing iterations is negative: {}", smoothingIterations);
+            }
+
             if (meshKernelState[meshKernelId].m_curvilinearGrid == nullptr)
             {
                 throw meshkernel::MeshKernelError("Not a valid curvilinear grid instance.");
@@ -4616,6 +4621,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel state does not exist.");
             }
 
+            if (smoothingIterations < 0)
+            {
+                throw meshkernel::ConstraintError("The number of smoothing iterations is negative: {}", smoothingIterations);
+            }
+
             if (meshKernelState[meshKernelId].m_curvilinearGrid == nullptr)
             {
                 throw meshkernel::MeshKernelError("Not a valid curvilinear grid instance.");
-- 
2.43.0


From 86463d4e3760b943713be60bb99384b92362fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:59 +0000
Subject: [PATCH 60/99] fix: keep the existing contacts when the computation of
 new ones fails

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index a00949e..bd5c5cd 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3665,8 +3665,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeSingleContacts(meshKernel1DNodeMask, meshKernelPolygons, projectionFactor);
+            auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeSingleContacts(meshKernel1DNodeMask, meshKernelPolygons, projectionFactor);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3696,8 +3697,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeMultipleContacts(meshKernel1DNodeMask);
+            auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeMultipleContacts(meshKernel1DNodeMask);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3733,9 +3735,10 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeContactsWithPolygons(meshKernel1DNodeMask,
+            auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeContactsWithPolygons(meshKernel1DNodeMask,
                                                                                   meshKernelPolygons);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3768,8 +3771,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeContactsWithPoints(meshKernel1DNodeMask, meshKernelPoints);
+            auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeContactsWithPoints(meshKernel1DNodeMask, meshKernelPoints);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3867,8 +3871,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeBoundaryContacts(meshKernel1DNodeMask, meshKernelPolygons, searchRadius);
+            auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeBoundaryContacts(meshKernel1DNodeMask, meshKernelPolygons, searchRadius);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0


From cb5c04df972da7869e723118f6d0f1f04bf012c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:19 +0000
Subject: [PATCH 61/99] fix: restore the mesh when a refinement fails half-way

---
 .../include/MeshKernel/MeshRefinement.hpp       |  3 +++
 libs/MeshKernel/src/MeshRefinement.cpp          | 17 +++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/MeshRefinement.hpp b/libs/MeshKernel/include/MeshKernel/MeshRefinement.hpp
index 5459e5f..fc12aa8 100644
--- a/libs/MeshKernel/include/MeshKernel/MeshRefinement.hpp
+++ b/libs/MeshKernel/include/MeshKernel/MeshRefinement.hpp
@@ -132,6 +132,9 @@ namespace meshkernel
         [[nodiscard]] std::unique_ptr<UndoAction> Compute();
 
     private:
+        /// @brief Performs the refinement, the mesh is partially refined when an exception is thrown
+        [[nodiscard]] std::unique_ptr<UndoAction> ComputeRefinement();
+
         /// @brief Finds if two edges are brothers, sharing an hanging node. Can be moved to Mesh2D
         void FindBrotherEdges();
 
diff --git a/libs/MeshKernel/src/MeshRefinement.cpp b/libs/MeshKernel/src/MeshRefinement.cpp
index cb03bf6..06a0e01 100644
--- a/libs/MeshKernel/src/MeshRefinement.cpp
+++ b/libs/MeshKernel/src/MeshRefinement.cpp
@@ -34,6 +34,7 @@
 #include <MeshKernel/MeshRefinement.hpp>
 #include <MeshKernel/Operations.hpp>
 #include <MeshKernel/UndoActions/CompoundUndoAction.hpp>
+#include <MeshKernel/UndoActions/FullUnstructuredGridUndo.hpp>
 
 using meshkernel::Mesh2D;
 using meshkernel::MeshRefinement;
@@ -75,6 +76,22 @@ MeshRefinement::MeshRefinement(Mesh2D& mesh,
 }
 
 std::unique_ptr<meshkernel::UndoAction> MeshRefinement::Compute()
+{
+    // A refinement that fails leaves the mesh as it was
+    auto initialMesh = FullUnstructuredGridUndo::Create(m_mesh);
+
+    try
+    {
+        return ComputeRefinement();
+    }
+    catch (...)
+    {
+        initialMesh->Restore();
+        throw;
+    }
+}
+
+std::unique_ptr<meshkernel::UndoAction> MeshRefinement::ComputeRefinement()
 {
     std::unique_ptr<meshkernel::CompoundUndoAction> refinementAction = CompoundUndoAction::Create();
 
-- 
2.43.0


From 04f6bac65a2c95060051efde25eeb986ef8a12aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:22 +0000
Subject: [PATCH 62/99] fix: storage of the points generated in a polygon could
 be too small; edges of an emptied mesh; polylines of one point

---
 .../include/MeshKernel/TriangulationWrapper.hpp      | 12 ++++++++++++
 libs/MeshKernel/src/Mesh.cpp                         |  2 +-
 libs/MeshKernel/src/Network1D.cpp                    |  4 ++--
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp b/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
index e7140cf..8952495 100644
--- a/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
+++ b/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
@@ -132,6 +132,9 @@ namespace meshkernel
                 m_yCoordFlat.resize(estimatedNumberOfTriangles * 3, constants::missing::doubleValue);
                 std::ranges::fill(m_yCoordFlat, 0.0);
 
+                // The number of nodes that can be stored
+                m_numNodes = triangulationOption == TriangulationOptions::GeneratePoints ? static_cast<int>(m_xCoordFlat.size()) : 0;
+
                 Triangulation(intTriangulationOption,
                               xLocalPolygon.data(),
                               yLocalPolygon.data(),
@@ -145,6 +148,15 @@ namespace meshkernel
                               m_yCoordFlat.data(),
                               &m_numNodes,
                               averageTriangleArea);
+
+                if (m_numNodes < 0)
+                {
+                    // The number of generated nodes exceeds the storage, repeat the triangulation with sufficient storage
+                    estimatedNumberOfTriangles = std::max(2 * estimatedNumberOfTriangles, static_cast<UInt>(-m_numNodes));
+                    m_numFaces = -1;
+                    continue;
+                }
+
                 if (estimatedNumberOfTriangles > 0)
                 {
                     estimatedNumberOfTriangles = -m_numFaces;
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 8bfe43c..0922b81 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -669,7 +669,7 @@ meshkernel::UInt Mesh::FindCommonNode(UInt firstEdgeIndex, UInt secondEdgeIndex)
 
 meshkernel::UInt Mesh::FindEdge(UInt firstNodeIndex, UInt secondNodeIndex) const
 {
-    if (firstNodeIndex >= m_nodesNumEdges.size() || secondNodeIndex == constants::missing::uintValue)
+    if (firstNodeIndex >= GetNumNodes() || firstNodeIndex >= m_nodesNumEdges.size() || secondNodeIndex == constants::missing::uintValue)
     {
         throw ConstraintError("Mesh::FindEdge: Invalid node index: first {}, second {}", firstNodeIndex, secondNodeIndex);
     }
diff --git a/libs/MeshKernel/src/Network1D.cpp b/libs/MeshKernel/src/Network1D.cpp
index 6908335..5b7dbe0 100644
--- a/libs/MeshKernel/src/Network1D.cpp
+++ b/libs/MeshKernel/src/Network1D.cpp
@@ -41,9 +41,9 @@ Network1D::Network1D(std::vector<std::vector<Point>> const& polyLines,
     // start and end polyline chainages should always be accounted for
     for (UInt i = 0; i < m_polyLines.size(); ++i)
     {
-        if (m_polyLines[i].empty())
+        if (m_polyLines[i].size() < 2)
         {
-            throw std::invalid_argument("Network1D::Network1D: A polyline without points has been given");
+            throw std::invalid_argument("Network1D::Network1D: A polyline with less than two points has been given");
         }
 
         auto const nodalChainages = ComputePolyLineNodalChainages(m_polyLines[i], projection);
-- 
2.43.0


From c3688bf23f20fe6ab95d25f09dcf893859eb4354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:30 +0000
Subject: [PATCH 63/99] fix: restore the mesh when splitting a row fails
 half-way

---
 libs/MeshKernel/src/SplitRowColumnOfMesh.cpp | 21 +++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp b/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
index 8fa25c1..4a35cec 100644
--- a/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
+++ b/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
@@ -1,6 +1,7 @@
 #include "MeshKernel/SplitRowColumnOfMesh.hpp"
 #include "MeshKernel/Entities.hpp"
 #include "MeshKernel/Operations.hpp"
+#include "MeshKernel/UndoActions/FullUnstructuredGridUndo.hpp"
 
 #include <tuple>
 
@@ -36,14 +37,24 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::SplitRowColumnOfMesh::Comput
     if (CanBeSplit(mesh, edgeId))
     {
         undoActions = CompoundUndoAction::Create();
+        auto initialMesh = FullUnstructuredGridUndo::Create(mesh);
 
-        CollectElementsToSplit(mesh, edgeId, elementIds, edgeIds);
-        SplitAlongRow(mesh, elementIds, edgeIds, *undoActions, edgesToDelete);
+        try
+        {
+            CollectElementsToSplit(mesh, edgeId, elementIds, edgeIds);
+            SplitAlongRow(mesh, elementIds, edgeIds, *undoActions, edgesToDelete);
 
-        std::ranges::for_each(edgesToDelete, [&](UInt edgeId)
-                              { undoActions->Add(mesh.DeleteEdge(edgeId)); });
+            std::ranges::for_each(edgesToDelete, [&](UInt edgeId)
+                                  { undoActions->Add(mesh.DeleteEdge(edgeId)); });
 
-        mesh.Administrate();
+            mesh.Administrate();
+        }
+        catch (...)
+        {
+            // A split that fails leaves the mesh as it was
+            initialMesh->Restore();
+            throw;
+        }
     }
 
     return undoActions;
-- 
2.43.0


From 9735079213b30ef332019e0119ea29bf62cc907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:51 +0000
Subject: [PATCH 64/99] fix: argument checks of the global mesh, the grid from
 splines and linear polygon refinement

---
 .../src/CurvilinearGrid/CurvilinearGridSplineToGrid.cpp   | 7 +++++++
 libs/MeshKernel/src/Polygon.cpp                           | 6 ++++++
 libs/MeshKernelApi/src/MeshKernel.cpp                     | 8 ++++----
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSplineToGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSplineToGrid.cpp
index 56fa6a1..0c44739 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSplineToGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSplineToGrid.cpp
@@ -29,6 +29,13 @@ meshkernel::CurvilinearGrid meshkernel::CurvilinearGridSplineToGrid::Compute(con
     // Make copy of spline because they may be changed
     // i.e. the order may change and the number of spline points may increase.
     Splines splinesCopy(splines);
+
+    if (curvilinearParameters.m_refinement < 1 || curvilinearParameters.n_refinement < 1)
+    {
+        throw ConstraintError("The refinement must be at least 1: m-refinement {}, n-refinement {}",
+                              curvilinearParameters.m_refinement, curvilinearParameters.n_refinement);
+    }
+
     VectorOfDoubleVectors splineIntersections(splines.GetNumSplines(), DoubleVector(splines.GetNumSplines(), 0.0));
 
     UInt mRefinement = curvilinearParameters.m_refinement;
diff --git a/libs/MeshKernel/src/Polygon.cpp b/libs/MeshKernel/src/Polygon.cpp
index 419300c..a353502 100644
--- a/libs/MeshKernel/src/Polygon.cpp
+++ b/libs/MeshKernel/src/Polygon.cpp
@@ -486,6 +486,12 @@ std::vector<meshkernel::Point> meshkernel::Polygon::LinearRefine(const UInt star
         numPolygonNodes = static_cast<UInt>(m_nodes.size()) - static_cast<UInt>(startIndex) + static_cast<UInt>(endIndex);
     }
 
+    if (numPolygonNodes < 2)
+    {
+        // The range consists of the start and end point of the closed polygon only
+        return m_nodes;
+    }
+
     std::vector<Point> polygonNodes(numPolygonNodes);
     std::vector<double> averageLengths(numPolygonNodes, 0.0);
     std::vector<double> actualAverageLengths(numPolygonNodes, 0.0);
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index bd5c5cd..2423eb5 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1710,14 +1710,14 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
-            if (numLongitudeNodes == 0)
+            if (numLongitudeNodes <= 0)
             {
-                throw meshkernel::MeshKernelError("The number of longitude nodes cannot be 0");
+                throw meshkernel::MeshKernelError("The number of longitude nodes must be positive");
             }
 
-            if (numLatitudeNodes == 0)
+            if (numLatitudeNodes <= 0)
             {
-                throw meshkernel::MeshKernelError("The number of latitude nodes cannot be 0");
+                throw meshkernel::MeshKernelError("The number of latitude nodes must be positive");
             }
 
             const auto mesh = meshkernel::Mesh2DGenerateGlobal::Compute(numLongitudeNodes, numLatitudeNodes, meshKernelState[meshKernelId].m_projection);
-- 
2.43.0


From a4b4df6cea1eef8b6485dd57bd070029d589713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:21 +0000
Subject: [PATCH 65/99] fix: contacts use the current 1d edge lengths, not the
 ones cached before the mesh was edited

---
 libs/MeshKernel/src/Mesh.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 0922b81..bfaf121 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -945,16 +945,12 @@ void Mesh::AdministrateNodesEdges(CompoundUndoAction* undoAction)
 double Mesh::ComputeMaxLengthSurroundingEdges(UInt node)
 {
 
-    if (m_edgeLengths.empty())
-    {
-        ComputeEdgesLengths();
-    }
-
     auto maxEdgeLength = std::numeric_limits<double>::lowest();
     for (UInt ee = 0; ee < m_nodesNumEdges[node]; ++ee)
     {
         const auto edge = m_nodesEdges[node][ee];
-        maxEdgeLength = std::max(maxEdgeLength, m_edgeLengths[edge]);
+        const auto& [firstNode, secondNode] = m_edges[edge];
+        maxEdgeLength = std::max(maxEdgeLength, ComputeDistance(m_nodes[firstNode], m_nodes[secondNode], m_projection));
     }
 
     return maxEdgeLength;
-- 
2.43.0


From ea18c6e89944f7364ca69de932f933de4dfd97bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:21 +0000
Subject: [PATCH 66/99] fix: network1d chainages at a non-positive offset are
 refused

---
 libs/MeshKernel/src/Network1D.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/MeshKernel/src/Network1D.cpp b/libs/MeshKernel/src/Network1D.cpp
index 5b7dbe0..42493bb 100644
--- a/libs/MeshKernel/src/Network1D.cpp
+++ b/libs/MeshKernel/src/Network1D.cpp
@@ -106,6 +106,10 @@ void Network1D::ComputeFixedChainages(std::vector<std::vector<double>> const& fi
 
 void Network1D::ComputeOffsettedChainages(double offset)
 {
+    if (!(offset > 0.0))
+    {
+        throw std::invalid_argument("Network1D::ComputeOffsettedChainages: the offset between two consecutive chainages must be larger than zero");
+    }
 
     for (UInt p = 0; p < m_polyLines.size(); ++p)
     {
-- 
2.43.0


From e729bb884aebc12eac51afa705a27e768c4d2736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:58 +0000
Subject: [PATCH 67/99] fix: land boundary path skips mesh nodes without a
 nearest land boundary segment

---
 libs/MeshKernel/src/LandBoundaries.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/LandBoundaries.cpp b/libs/MeshKernel/src/LandBoundaries.cpp
index 6ced51f..606d651 100644
--- a/libs/MeshKernel/src/LandBoundaries.cpp
+++ b/libs/MeshKernel/src/LandBoundaries.cpp
@@ -873,6 +873,11 @@ std::vector<meshkernel::UInt> LandBoundaries::ShortestPath(UInt landBoundaryInde
                         neighboringNodeLandBoundaryNodeIndex,
                         neighboringNodeEdgeRatio] = NearestLandBoundarySegment(landBoundaryIndex, neighboringNode);
 
+            if (neighboringNodeLandBoundaryNodeIndex == constants::missing::uintValue)
+            {
+                continue;
+            }
+
             double maximumDistance = std::max(currentNodeDistance, neighboringNodeDistance);
 
             if (currentNodeLandBoundaryNodeIndex < neighboringNodeLandBoundaryNodeIndex)
-- 
2.43.0


From 994e2403aa68fe2beedc5747cfbdecf97d490bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:58 +0000
Subject: [PATCH 68/99] fix: inner orthogonalization iteration without a
 prepared outer iteration is refused

---
 libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
index 88d3368..64b2fb4 100644
--- a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
+++ b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
@@ -221,6 +221,10 @@ void OrthogonalizationAndSmoothing::ComputeLinearSystemTerms()
 
 void OrthogonalizationAndSmoothing::Solve()
 {
+    if (m_compressedEndNodeIndex.size() != m_mesh.GetNumNodes() || m_orthogonalCoordinates.size() != m_mesh.GetNumNodes())
+    {
+        throw AlgorithmError("The iteration has not been prepared for the current mesh.");
+    }
 
 #pragma omp parallel for
     for (int n = 0; n < static_cast<int>(m_mesh.GetNumNodes()); n++)
-- 
2.43.0


From 6895d1bd3757db7947d562d600da58dd30e5bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:40 +0000
Subject: [PATCH 69/99] fix: triangulation of coinciding points is refused
 instead of recursing without end

---
 libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp b/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
index 8952495..6433e24 100644
--- a/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
+++ b/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
@@ -33,6 +33,7 @@
 #include "MeshKernel/Point.hpp"
 #include "MeshKernel/PolygonalEnclosure.hpp"
 
+#include <algorithm>
 #include <concepts>
 
 namespace meshkernel
@@ -92,6 +93,11 @@ namespace meshkernel
             {
                 throw ConstraintError("A triangulation needs at least three points: number of points = {}", inputNodes.size());
             }
+            if (std::ranges::all_of(inputNodes, [&first = inputNodes.front()](const T& node)
+                                    { return node.x == first.x && node.y == first.y; }))
+            {
+                throw ConstraintError("All points of the triangulation coincide.");
+            }
             std::vector<double> xLocalPolygon(inputNodes.size());
             std::vector<double> yLocalPolygon(inputNodes.size());
             for (UInt i = 0; i < inputNodes.size(); ++i)
-- 
2.43.0


From 390b20f569878c2714d2bee1a7c2c6d24e7ec0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:40 +0000
Subject: [PATCH 70/99] fix: transfinite grid from polygon, fourth corner when
 the polygon is followed backwards past its first node

---
 .../CurvilinearGrid/CurvilinearGridFromPolygon.cpp   | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
index 8e674d1..50b9bcb 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
@@ -133,12 +133,14 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridFromPolygon::Compute(UInt firstN
     }
 
     // get the fourth node
-    auto fourthNode = thirdNode + direction * (numMNodes - 1);
-
-    // This can never be true now
-    if (fourthNode < start)
+    UInt fourthNode;
+    if (direction == 1)
+    {
+        fourthNode = thirdNode + numMNodes - 1;
+    }
+    else
     {
-        fourthNode += numPolygonNodes;
+        fourthNode = thirdNode + numPolygonNodes - (numMNodes - 1);
     }
 
     if (fourthNode >= numPolygonNodes)
-- 
2.43.0


From d972d9e334f84647012a726babe82d00d5afdfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:21 +0000
Subject: [PATCH 71/99] fix: contacts ignore deleted 1d mesh edges

---
 libs/MeshKernel/src/Contacts.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libs/MeshKernel/src/Contacts.cpp b/libs/MeshKernel/src/Contacts.cpp
index 52a0f47..edeb8d0 100644
--- a/libs/MeshKernel/src/Contacts.cpp
+++ b/libs/MeshKernel/src/Contacts.cpp
@@ -95,6 +95,10 @@ bool Contacts::IsContactIntersectingMesh1d(UInt node,
 {
     for (UInt e = 0; e < m_mesh1d.GetNumEdges(); ++e)
     {
+        if (m_mesh1d.GetEdge(e).first == constants::missing::uintValue || m_mesh1d.GetEdge(e).second == constants::missing::uintValue)
+        {
+            continue;
+        }
 
         const auto [areSegmentCrossing,
                     intersectionPoint,
@@ -173,6 +177,11 @@ void Contacts::ComputeMultipleContacts(const std::vector<bool>& oneDNodeMask)
         const auto firstNode1dMeshEdge = m_mesh1d.GetEdge(e).first;
         const auto secondNode1dMeshEdge = m_mesh1d.GetEdge(e).second;
 
+        if (firstNode1dMeshEdge == constants::missing::uintValue || secondNode1dMeshEdge == constants::missing::uintValue)
+        {
+            continue;
+        }
+
         // computes the maximum edge length
         const auto maxEdgeLength = m_mesh1d.ComputeMaxLengthSurroundingEdges(firstNode1dMeshEdge);
 
-- 
2.43.0


From 5f01b91130fd32c8e7b8c9de9d1d011186b8b7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 72/99] fix: Casulli refinement and derefinement bring the mesh
 tables up to date first

---
 libs/MeshKernel/src/CasulliDeRefinement.cpp | 2 ++
 libs/MeshKernel/src/CasulliRefinement.cpp   | 2 ++
 libs/MeshKernelApi/src/MeshKernel.cpp       | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index 64e75c3..123d0b4 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -42,6 +42,8 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliDeRefinement::Compute
 
 std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliDeRefinement::Compute(Mesh2D& mesh, const Polygons& polygon)
 {
+    mesh.Administrate();
+
     std::unique_ptr<FullUnstructuredGridUndo> refinementAction = FullUnstructuredGridUndo::Create(mesh);
     const std::vector<Point> meshNodes(mesh.Nodes());
     const std::vector<Edge> meshEdges(mesh.Edges());
diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index b8e97b1..c5e8ce2 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -41,6 +41,8 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(M
 
 std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(Mesh2D& mesh, const Polygons& polygon)
 {
+    mesh.Administrate();
+
     std::vector<EdgeNodes> newNodes(mesh.GetNumEdges(), {constants::missing::uintValue, constants::missing::uintValue, constants::missing::uintValue, constants::missing::uintValue});
     std::vector<NodeMask> nodeMask(InitialiseNodeMask(mesh, polygon));
     std::unique_ptr<CompoundUndoAction> refinementAction = CompoundUndoAction::Create();
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 2423eb5..bc1b8f3 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3112,6 +3112,7 @@ namespace meshkernelapi
 
             meshkernel::Polygons polygons; // empty polygonal region, i.e. the entire mesh
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             std::vector<meshkernel::Point> elementCentres(meshkernel::CasulliDeRefinement::ElementsToDelete(*meshKernelState[meshKernelId].m_mesh2d, polygons));
 
             elements.num_coordinates = static_cast<int>(elementCentres.size());
@@ -3150,6 +3151,7 @@ namespace meshkernelapi
             const meshkernel::Polygons polygons(polygonPoints,
                                                 meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             std::vector<meshkernel::Point> elementCentres(meshkernel::CasulliDeRefinement::ElementsToDelete(*meshKernelState[meshKernelId].m_mesh2d, polygons));
 
             elements.num_coordinates = static_cast<int>(elementCentres.size());
-- 
2.43.0


From 3d7aed3492f9242c8a4162051d199156e94573a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:46 +0000
Subject: [PATCH 73/99] fix: snapping to land boundaries brings the mesh tables
 up to date first

---
 libs/MeshKernel/src/LandBoundaries.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/MeshKernel/src/LandBoundaries.cpp b/libs/MeshKernel/src/LandBoundaries.cpp
index 606d651..41250df 100644
--- a/libs/MeshKernel/src/LandBoundaries.cpp
+++ b/libs/MeshKernel/src/LandBoundaries.cpp
@@ -111,6 +111,7 @@ void LandBoundaries::FindNearestMeshBoundary(ProjectToLandBoundaryOption project
         m_findOnlyOuterMeshBoundary = true;
     }
 
+    m_mesh.Administrate();
     Administrate();
 
     m_nodeMask.resize(m_mesh.GetNumNodes(), constants::missing::uintValue);
-- 
2.43.0


From eda788f76aed38a508e57772f6e5f10adb6d56ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:52 +0000
Subject: [PATCH 74/99] fix: contacts bring the 2d mesh tables up to date first

---
 libs/MeshKernel/src/Contacts.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/Contacts.cpp b/libs/MeshKernel/src/Contacts.cpp
index edeb8d0..4c4eba8 100644
--- a/libs/MeshKernel/src/Contacts.cpp
+++ b/libs/MeshKernel/src/Contacts.cpp
@@ -34,6 +34,7 @@ void Contacts::ComputeSingleContacts(const std::vector<bool>& oneDNodeMask,
     }
 
     m_mesh1d.AdministrateNodesEdges();
+    m_mesh2d.Administrate();
 
     Validate();
 
@@ -157,8 +158,9 @@ void Contacts::ComputeMultipleContacts(const std::vector<bool>& oneDNodeMask)
                              m_mesh1d.GetNumNodes());
     }
 
-    // perform mesh1d administration
+    // perform mesh1d and mesh2d administration
     m_mesh1d.AdministrateNodesEdges();
+    m_mesh2d.Administrate();
 
     Validate();
 
@@ -270,8 +272,9 @@ void Contacts::ComputeContactsWithPolygons(const std::vector<bool>& oneDNodeMask
         return;
     }
 
-    // perform mesh1d administration
+    // perform mesh1d and mesh2d administration
     m_mesh1d.AdministrateNodesEdges();
+    m_mesh2d.Administrate();
     Validate();
 
     // for each mesh2d face, store polygon index
@@ -335,8 +338,9 @@ void Contacts::ComputeContactsWithPoints(const std::vector<bool>& oneDNodeMask,
                              m_mesh1d.GetNumNodes());
     }
 
-    // perform mesh1d administration (m_nodesRTree will also be build if necessary)
+    // perform mesh1d and mesh2d administration (m_nodesRTree will also be build if necessary)
     m_mesh1d.AdministrateNodesEdges();
+    m_mesh2d.Administrate();
 
     Validate();
 
@@ -384,8 +388,9 @@ void Contacts::ComputeBoundaryContacts(const std::vector<bool>& oneDNodeMask,
                              m_mesh1d.GetNumNodes());
     }
 
-    // perform mesh1d administration
+    // perform mesh1d and mesh2d administration
     m_mesh1d.AdministrateNodesEdges();
+    m_mesh2d.Administrate();
 
     Validate();
 
-- 
2.43.0


From 0362069f9656be1f5b47bfb5e510f901f10c7c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:52 +0000
Subject: [PATCH 75/99] fix: mesh2d_get_data brings the mesh tables up to date
 first

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index bc1b8f3..4b0040d 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -792,6 +792,7 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             SetMesh2dApiData(*meshKernelState[meshKernelId].m_mesh2d, mesh2d);
         }
         catch (...)
-- 
2.43.0


From 590137ba8f83961d02b87ae1a2ecae1af6cfec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:46 +0000
Subject: [PATCH 76/99] fix: interactive sessions keep the mesh or grid they
 refer to alive

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 31 ++++++++++++++++++---------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 4b0040d..d3863ac 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -117,6 +117,14 @@ namespace meshkernelapi
     /// @brief Stack of undo actions
     static meshkernel::UndoActionStack meshKernelUndoStack;
 
+    /// @brief Makes an interactive algorithm share the ownership of the mesh or grid it refers to, which may be replaced during the session
+    template <typename Algorithm, typename Entity>
+    static std::shared_ptr<Algorithm> ShareOwnership(std::unique_ptr<Algorithm> algorithm, std::shared_ptr<Entity> entity)
+    {
+        return std::shared_ptr<Algorithm>(algorithm.release(), [owner = std::move(entity)](const Algorithm* ptr)
+                                          { delete ptr; });
+    }
+
     static meshkernel::ExitCode HandleException(std::exception_ptr exception_ptr = std::current_exception())
     {
         try
@@ -1302,13 +1310,14 @@ namespace meshkernelapi
             auto polygon = std::make_unique<meshkernel::Polygons>(polygonNodesVector, meshKernelState[meshKernelId].m_mesh2d->m_projection);
             auto landBoundary = std::make_unique<meshkernel::LandBoundaries>(landBoundariesNodeVector, *meshKernelState[meshKernelId].m_mesh2d, *polygon);
 
-            meshKernelState[meshKernelId].m_meshOrthogonalization = std::make_unique<meshkernel::OrthogonalizationAndSmoothing>(*meshKernelState[meshKernelId].m_mesh2d,
-                                                                                                                                std::move(smoother),
-                                                                                                                                std::move(orthogonalizer),
-                                                                                                                                std::move(polygon),
-                                                                                                                                std::move(landBoundary),
-                                                                                                                                static_cast<meshkernel::LandBoundaries::ProjectToLandBoundaryOption>(projectToLandBoundaryOption),
-                                                                                                                                orthogonalizationParameters);
+            auto orthogonalization = std::make_unique<meshkernel::OrthogonalizationAndSmoothing>(*meshKernelState[meshKernelId].m_mesh2d,
+                                                                                                 std::move(smoother),
+                                                                                                 std::move(orthogonalizer),
+                                                                                                 std::move(polygon),
+                                                                                                 std::move(landBoundary),
+                                                                                                 static_cast<meshkernel::LandBoundaries::ProjectToLandBoundaryOption>(projectToLandBoundaryOption),
+                                                                                                 orthogonalizationParameters);
+            meshKernelState[meshKernelId].m_meshOrthogonalization = ShareOwnership(std::move(orthogonalization), meshKernelState[meshKernelId].m_mesh2d);
             meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_meshOrthogonalization->Initialize(), meshKernelId);
         }
         catch (...)
@@ -4438,8 +4447,9 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
-            meshKernelState[meshKernelId].m_curvilinearGridOrthogonalization = std::make_unique<meshkernel::CurvilinearGridOrthogonalization>(*meshKernelState[meshKernelId].m_curvilinearGrid,
-                                                                                                                                              orthogonalizationParameters);
+            auto orthogonalization = std::make_unique<meshkernel::CurvilinearGridOrthogonalization>(*meshKernelState[meshKernelId].m_curvilinearGrid,
+                                                                                                    orthogonalizationParameters);
+            meshKernelState[meshKernelId].m_curvilinearGridOrthogonalization = ShareOwnership(std::move(orthogonalization), meshKernelState[meshKernelId].m_curvilinearGrid);
         }
         catch (...)
         {
@@ -4690,7 +4700,8 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("Not valid curvilinear grid.");
             }
 
-            meshKernelState[meshKernelId].m_curvilinearGridLineShift = std::make_unique<meshkernel::CurvilinearGridLineShift>(*meshKernelState[meshKernelId].m_curvilinearGrid);
+            auto lineShift = std::make_unique<meshkernel::CurvilinearGridLineShift>(*meshKernelState[meshKernelId].m_curvilinearGrid);
+            meshKernelState[meshKernelId].m_curvilinearGridLineShift = ShareOwnership(std::move(lineShift), meshKernelState[meshKernelId].m_curvilinearGrid);
         }
         catch (...)
         {
-- 
2.43.0


From 27dbe7d3b56e6fea9e1d61906f50f78518196d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:30 +0000
Subject: [PATCH 77/99] fix: edges of the third and later lines of a network
 refer to their own nodes

---
 libs/MeshKernel/src/Mesh1D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh1D.cpp b/libs/MeshKernel/src/Mesh1D.cpp
index 4630073..3b658a6 100644
--- a/libs/MeshKernel/src/Mesh1D.cpp
+++ b/libs/MeshKernel/src/Mesh1D.cpp
@@ -62,7 +62,7 @@ Mesh1D::Mesh1D(Network1D& network1d, double minFaceSize)
             edges.emplace_back(i, i + 1);
         }
         // Poly lines are separated. If the end of one polyline coincides with the start of another, the two nodes will be merged later on.
-        numNodes = numNodes + static_cast<UInt>(nodes.size());
+        numNodes = static_cast<UInt>(nodes.size());
     }
 
     // Sets the edges, nodes and projections
-- 
2.43.0


From d71e1814d4e72867f07eb2d7ba3f10ebce58a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:30 +0000
Subject: [PATCH 78/99] fix: discretization of a polyline skips all segments
 before a chainage

---
 libs/MeshKernel/src/Operations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index b9778ce..a5da62d 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -1627,7 +1627,7 @@ namespace meshkernel
         std::sort(chainages.begin(), chainages.end());
         for (auto const& chainage : chainages)
         {
-            if (chainage > polylineNodalCoordinate[curentNodalIndex + 1])
+            while (curentNodalIndex + 2 < polyline.size() && chainage > polylineNodalCoordinate[curentNodalIndex + 1])
             {
                 curentNodalIndex++;
             }
-- 
2.43.0


From 532d05d94f199903d9eb0df570b1c89b0eafb4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:30 +0000
Subject: [PATCH 79/99] fix: a fixed chainage near the start of a line no
 longer overwrites the end of the line

---
 libs/MeshKernel/src/Network1D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Network1D.cpp b/libs/MeshKernel/src/Network1D.cpp
index 42493bb..773ba67 100644
--- a/libs/MeshKernel/src/Network1D.cpp
+++ b/libs/MeshKernel/src/Network1D.cpp
@@ -87,7 +87,7 @@ void Network1D::ComputeFixedChainages(std::vector<std::vector<double>> const& fi
                 previousChainage = chainageBeforeFixedPoint;
                 previousChainageIsAFixedPoint = true;
             }
-            else if (previousChainageIsAFixedPoint)
+            else if (previousChainageIsAFixedPoint && m_chainages[p].size() > 2)
             {
                 // center the gridpoint between two fixed points
                 m_chainages[p].back() = (chainageBeforeFixedPoint + previousChainage) * 0.5;
-- 
2.43.0


From cfdb3e910822f35c0a1cb3bba72d6ef1eed6967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:30 +0000
Subject: [PATCH 80/99] fix: contacts with polygons and points honour the 1d
 node mask

---
 .../include/MeshKernel/Contacts.hpp           |  5 ++
 libs/MeshKernel/src/Contacts.cpp              | 48 +++++++++++++++----
 2 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/Contacts.hpp b/libs/MeshKernel/include/MeshKernel/Contacts.hpp
index e0553dc..14ab397 100644
--- a/libs/MeshKernel/include/MeshKernel/Contacts.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Contacts.hpp
@@ -167,6 +167,11 @@ namespace meshkernel
         /// @brief Validate checking mesh1d and mesh2d are not empty, throws an exception otherwise
         void Validate() const;
 
+        /// @brief Creates a tree of the 1d nodes that can be connected
+        /// @param[in] oneDNodeMask The mask of the 1d nodes
+        /// @return The tree with the nodes for which the mask is set
+        std::unique_ptr<RTreeBase> CreateMaskedNodesRTree(const std::vector<bool>& oneDNodeMask) const;
+
         Mesh1D& m_mesh1d;                  ///< The 1-d mesh to connect
         Mesh2D& m_mesh2d;                  ///< The 2-d mesh to connect
         std::vector<UInt> m_mesh1dIndices; ///< The indices of the connected 1-d nodes
diff --git a/libs/MeshKernel/src/Contacts.cpp b/libs/MeshKernel/src/Contacts.cpp
index 4c4eba8..32b0d55 100644
--- a/libs/MeshKernel/src/Contacts.cpp
+++ b/libs/MeshKernel/src/Contacts.cpp
@@ -255,6 +255,23 @@ void Contacts::ComputeMultipleContacts(const std::vector<bool>& oneDNodeMask)
     m_areComputed = true;
 }
 
+std::unique_ptr<meshkernel::RTreeBase> Contacts::CreateMaskedNodesRTree(const std::vector<bool>& oneDNodeMask) const
+{
+    // invalid points are not inserted in the tree
+    std::vector<Point> nodes(m_mesh1d.Nodes());
+    for (UInt n = 0; n < nodes.size(); ++n)
+    {
+        if (!oneDNodeMask.empty() && !oneDNodeMask[n])
+        {
+            nodes[n].SetInvalid();
+        }
+    }
+
+    auto rtree = RTreeFactory::Create(m_mesh1d.m_projection);
+    rtree->BuildTree(nodes);
+    return rtree;
+}
+
 void Contacts::ComputeContactsWithPolygons(const std::vector<bool>& oneDNodeMask,
                                            const Polygons& polygons)
 {
@@ -291,18 +308,23 @@ void Contacts::ComputeContactsWithPolygons(const std::vector<bool>& oneDNodeMask
     std::vector<double> minimalDistance(polygons.GetNumPolygons(), constants::missing::doubleValue);
     std::vector<UInt> closest1dNodeIndices(polygons.GetNumPolygons(), constants::missing::uintValue);
     std::vector<UInt> closest2dNodeIndices(polygons.GetNumPolygons(), constants::missing::uintValue);
-    m_mesh1d.BuildTree(Location::Nodes);
+    const auto nodesRTree = CreateMaskedNodesRTree(oneDNodeMask);
 
     for (UInt faceIndex = 0; faceIndex < m_mesh2d.GetNumFaces(); ++faceIndex)
     {
         // if face is not within a polygon, continue
-        if (!faceInPolygon[faceIndex])
+        if (!faceInPolygon[faceIndex] || nodesRTree->Empty())
         {
             continue;
         }
         const auto polygonIndex = facePolygonIndex[faceIndex];
         const auto faceMassCenter = m_mesh2d.m_facesMassCenters[faceIndex];
-        const auto close1DNodeIndex = m_mesh1d.FindLocationIndex(faceMassCenter, Location::Nodes, oneDNodeMask);
+        nodesRTree->SearchNearestPoint(faceMassCenter);
+        if (nodesRTree->GetQueryResultSize() == 0)
+        {
+            continue;
+        }
+        const auto close1DNodeIndex = nodesRTree->GetQueryResult(0);
 
         const auto close1DNode = m_mesh1d.Node(close1DNodeIndex);
         const auto squaredDistance = ComputeSquaredDistance(faceMassCenter, close1DNode, m_mesh2d.m_projection);
@@ -320,6 +342,12 @@ void Contacts::ComputeContactsWithPolygons(const std::vector<bool>& oneDNodeMask
     // connect 1D nodes to closest 2d node in a polygon
     for (UInt polygonIndex = 0; polygonIndex < polygons.GetNumPolygons(); ++polygonIndex)
     {
+        // no faces in the polygon
+        if (closest2dNodeIndices[polygonIndex] == constants::missing::uintValue)
+        {
+            continue;
+        }
+
         m_mesh1dIndices.emplace_back(closest1dNodeIndices[polygonIndex]);
         m_mesh2dIndices.emplace_back(closest2dNodeIndices[polygonIndex]);
     }
@@ -344,8 +372,12 @@ void Contacts::ComputeContactsWithPoints(const std::vector<bool>& oneDNodeMask,
 
     Validate();
 
-    m_mesh1d.BuildTree(Location::Nodes);
-    auto& rtree = m_mesh1d.GetRTree(Location::Nodes);
+    const auto rtree = CreateMaskedNodesRTree(oneDNodeMask);
+    if (rtree->Empty())
+    {
+        m_areComputed = true;
+        return;
+    }
 
     // find the face indices containing the 1d points
     const auto pointsFaceIndices = m_mesh2d.PointFaceIndices(points);
@@ -360,16 +392,16 @@ void Contacts::ComputeContactsWithPoints(const std::vector<bool>& oneDNodeMask,
         }
 
         // get the closest 1d node
-        rtree.SearchNearestPoint(points[i]);
+        rtree->SearchNearestPoint(points[i]);
 
         // if nothing found continue
-        if (rtree.GetQueryResultSize() == 0)
+        if (rtree->GetQueryResultSize() == 0)
         {
             continue;
         }
 
         // form the 1d-2d contact
-        m_mesh1dIndices.emplace_back(rtree.GetQueryResult(0));
+        m_mesh1dIndices.emplace_back(rtree->GetQueryResult(0));
         m_mesh2dIndices.emplace_back(pointsFaceIndices[i]);
     }
 
-- 
2.43.0


From ed1523eda45bb3b8c89a5648c4aedc8c4cb44b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:30 +0000
Subject: [PATCH 81/99] fix: points in faces whose nearest edge belongs to
 another face are found

---
 libs/MeshKernel/src/Mesh2D.cpp | 47 ++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 1870f33..8de2268 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -25,6 +25,9 @@
 //
 //------------------------------------------------------------------------------
 
+#include <algorithm>
+#include <numeric>
+
 #include "MeshKernel/Mesh2D.hpp"
 #include "MeshKernel/Constants.hpp"
 #include "MeshKernel/Definitions.hpp"
@@ -1913,6 +1916,50 @@ std::vector<meshkernel::UInt> Mesh2D::PointFaceIndices(const std::vector<Point>&
             }
         }
     }
+
+    // The face containing a point does not always have the edge with the nearest centre: search the remaining points in the face bounding boxes
+    if (std::ranges::find(result, constants::missing::uintValue) == result.end())
+    {
+        return result;
+    }
+
+    std::vector<BoundingBox> faceBoundingBoxes(GetNumFaces());
+    std::vector<UInt> sortedFaces(GetNumFaces());
+    std::iota(sortedFaces.begin(), sortedFaces.end(), 0);
+    double maximumWidth = 0.0;
+    for (UInt f = 0; f < GetNumFaces(); ++f)
+    {
+        ComputeFaceClosedPolygon(f, polygonNodesCache);
+        faceBoundingBoxes[f] = BoundingBox(polygonNodesCache);
+        maximumWidth = std::max(maximumWidth, faceBoundingBoxes[f].Width());
+    }
+    std::ranges::sort(sortedFaces, [&faceBoundingBoxes](UInt first, UInt second)
+                      { return faceBoundingBoxes[first].lowerLeft().x < faceBoundingBoxes[second].lowerLeft().x; });
+
+    for (UInt i = 0; i < numPoints; ++i)
+    {
+        if (result[i] != constants::missing::uintValue || !points[i].IsValid())
+        {
+            continue;
+        }
+
+        auto it = std::ranges::lower_bound(sortedFaces, points[i].x - maximumWidth, {}, [&faceBoundingBoxes](UInt face)
+                                           { return faceBoundingBoxes[face].lowerLeft().x; });
+        for (; it != sortedFaces.end() && faceBoundingBoxes[*it].lowerLeft().x <= points[i].x; ++it)
+        {
+            if (!faceBoundingBoxes[*it].Contains(points[i]))
+            {
+                continue;
+            }
+
+            ComputeFaceClosedPolygon(*it, polygonNodesCache);
+            if (IsPointInPolygonNodes(points[i], polygonNodesCache, m_projection))
+            {
+                result[i] = *it;
+                break;
+            }
+        }
+    }
     return result;
 }
 
-- 
2.43.0


From e0ae19e25ef9b42702498bfd6494e54bd1a08211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:30 +0000
Subject: [PATCH 82/99] fix: joining meshes keeps deleted edges deleted

---
 libs/MeshKernel/src/Mesh.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index bfaf121..919619b 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -1055,8 +1055,9 @@ Mesh& Mesh::operator+=(Mesh const& rhs)
     for (auto e = numEdges; e < numEdges + rhsNumEdges; ++e)
     {
         const auto index = e - numEdges;
-        m_edges[e].first = rhs.m_edges[index].first + numNodes;
-        m_edges[e].second = rhs.m_edges[index].second + numNodes;
+        const auto& [first, second] = rhs.m_edges[index];
+        m_edges[e].first = first == constants::missing::uintValue ? constants::missing::uintValue : first + numNodes;
+        m_edges[e].second = second == constants::missing::uintValue ? constants::missing::uintValue : second + numNodes;
     }
 
     m_nodesRTreeRequiresUpdate = true;
-- 
2.43.0


From 53323039acd3bd3151b07c7b0ba1a63b8b1a1b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:07 +0000
Subject: [PATCH 83/99] fix: a global grid is closed for every number of
 longitudes

---
 libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp b/libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp
index 80889ef..1d25fa3 100644
--- a/libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp
+++ b/libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp
@@ -163,7 +163,9 @@ std::unique_ptr<Mesh2D> Mesh2DGenerateGlobal::Compute(const UInt numLongitudeNod
                 numberOfPoints = 5;
             }
 
-            if (points[2].x <= 180.0)
+            // Allow for rounding in the last longitude, otherwise the last column of faces may be left out
+            constexpr double longitudeTolerance = 1.0e-6;
+            if (points[2].x <= 180.0 + longitudeTolerance)
             {
                 pentagonFace = false;
                 AddFace(*mesh2d, points, GridExpansionDirection::Northwards, numberOfPoints);
-- 
2.43.0


From b69d20f8de3a6d1393ae1aa6bd7516875074fc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:13 +0000
Subject: [PATCH 84/99] fix: inserting an edge by coordinates uses the current
 edge lengths

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index d3863ac..a0c50cc 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2281,6 +2281,8 @@ namespace meshkernelapi
             meshkernel::Point const secondNodeCoordinates{secondNodeX, secondNodeY};
 
             const auto newEdgeLength = ComputeDistance(firstNodeCoordinates, secondNodeCoordinates, meshKernelState[meshKernelId].m_projection);
+            // The edge lengths must be those of the current mesh
+            meshKernelState[meshKernelId].m_mesh2d->ComputeEdgesLengths();
             const auto& edgeLengths = meshKernelState[meshKernelId].m_mesh2d->m_edgeLengths;
             constexpr auto lengthFraction = 0.01;
 
-- 
2.43.0


From ca17ead1f852d46179efa50f47099ad8114e38a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:40 +0000
Subject: [PATCH 85/99] fix: a row can be split from an edge next to a face
 that is no quadrilateral

---
 libs/MeshKernel/src/SplitRowColumnOfMesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp b/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
index 4a35cec..951dd6f 100644
--- a/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
+++ b/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
@@ -302,7 +302,8 @@ void meshkernel::SplitRowColumnOfMesh::CollectElementsOneSideOfEdge(const Mesh2D
         firstIteration = false;
     }
 
-    if (IsValid(currentEdgeId))
+    // Also here, ensure the seed edge is added only once to the sequence of edges
+    if (IsValid(currentEdgeId) && (whichSide == 0 || !firstIteration))
     {
         partialEdgeIds.push_back(currentEdgeId);
     }
-- 
2.43.0


From cfb44022e3d661582936c3b603dabe9111f60052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:06 +0000
Subject: [PATCH 86/99] fix: flipping edges makes no triangles without area

---
 libs/MeshKernel/src/FlipEdges.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/FlipEdges.cpp b/libs/MeshKernel/src/FlipEdges.cpp
index cb00f05..2d6f8d2 100644
--- a/libs/MeshKernel/src/FlipEdges.cpp
+++ b/libs/MeshKernel/src/FlipEdges.cpp
@@ -126,7 +126,9 @@ std::unique_ptr<meshkernel::UndoAction> FlipEdges::Compute() const
                                                            false,
                                                            m_mesh.m_projection);
 
-            if (!areEdgesCrossing)
+            // A crossing at one of the nodes of the edge would result in a triangle without area
+            constexpr double minimumRatio = 1.0e-6;
+            if (!areEdgesCrossing || firstRatio < minimumRatio || firstRatio > 1.0 - minimumRatio)
             {
                 continue;
             }
-- 
2.43.0


From 8e7e70bdeed1822ec4e2faed19d2047bbf3d8b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:39 +0000
Subject: [PATCH 87/99] fix: the point nearest on a line of zero length is that
 line's point

---
 libs/MeshKernel/src/Operations.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index a5da62d..355d4e1 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -940,6 +940,13 @@ namespace meshkernel
                 normalPoint = firstNode + correctedRatio * (secondNode - firstNode);
                 distance = ComputeDistance(point, normalPoint, projection);
             }
+            else
+            {
+                // The line is a single point
+                ratio = 0.0;
+                normalPoint = firstNode;
+                distance = ComputeDistance(point, normalPoint, projection);
+            }
         }
 
         if (projection == Projection::sphericalAccurate)
@@ -969,7 +976,7 @@ namespace meshkernel
             const double r2 = x21 * x21 + y21 * y21 + z21 * z21;
 
             ratio = 0.0;
-            if (r2 >= 0.0)
+            if (r2 > 0.0)
             {
 
                 ratio = (x31 * x21 + y31 * y21 + z31 * z21) / r2;
@@ -991,6 +998,12 @@ namespace meshkernel
                 const double referenceLongitude = std::max({firstNode.x, secondNode.x, point.x});
                 normalPoint = Cartesian3DToSpherical(cartesianNormal3DPoint, referenceLongitude);
             }
+            else
+            {
+                // The line is a single point
+                normalPoint = firstNode;
+                distance = ComputeDistance(point, normalPoint, projection);
+            }
         }
 
         return {distance, normalPoint, ratio};
-- 
2.43.0


From 834932b687257687a49f51d97170771f0d5119b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:51 +0000
Subject: [PATCH 88/99] fix: the nearest point on a line in accurate spherical
 coordinates

---
 libs/MeshKernel/src/Operations.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index 355d4e1..418a62e 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -987,13 +987,11 @@ namespace meshkernel
                 cartesianNormal3DPoint.y = firstNodeCartesian.y + correctedRatio * y21;
                 cartesianNormal3DPoint.z = firstNodeCartesian.z + correctedRatio * z21;
 
-                cartesianNormal3DPoint.x = cartesianNormal3DPoint.x - xx3;
-                cartesianNormal3DPoint.y = cartesianNormal3DPoint.y - yy3;
-                cartesianNormal3DPoint.z = cartesianNormal3DPoint.z - zz3;
+                const double dx = cartesianNormal3DPoint.x - xx3;
+                const double dy = cartesianNormal3DPoint.y - yy3;
+                const double dz = cartesianNormal3DPoint.z - zz3;
 
-                distance = std::sqrt(cartesianNormal3DPoint.x * cartesianNormal3DPoint.x +
-                                     cartesianNormal3DPoint.y * cartesianNormal3DPoint.y +
-                                     cartesianNormal3DPoint.z * cartesianNormal3DPoint.z);
+                distance = std::sqrt(dx * dx + dy * dy + dz * dz);
 
                 const double referenceLongitude = std::max({firstNode.x, secondNode.x, point.x});
                 normalPoint = Cartesian3DToSpherical(cartesianNormal3DPoint, referenceLongitude);
-- 
2.43.0


From da1561f78cb3359c258314a60492f028a6d6913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:13 +0000
Subject: [PATCH 89/99] fix: a failed Casulli de-refinement left a changed
 mesh, and it could connect a node with itself

---
 libs/MeshKernel/src/CasulliDeRefinement.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index 123d0b4..8884e8e 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -48,18 +48,23 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliDeRefinement::Compute
     const std::vector<Point> meshNodes(mesh.Nodes());
     const std::vector<Edge> meshEdges(mesh.Edges());
 
-    if (DoDeRefinement(mesh, polygon))
+    try
     {
+        if (!DoDeRefinement(mesh, polygon))
+        {
+            throw AlgorithmError("Unable to compute the Casulli de-refinement");
+        }
+
+        // Edges of which both nodes have been replaced by the same node
+        [[maybe_unused]] auto deleteAction = mesh.DeleteDuplicateEdges();
         mesh.DeleteInvalidNodesAndEdges();
         mesh.Administrate();
     }
-    else
+    catch (...)
     {
         // The de-refinement failed, restore the original mesh
         refinementAction->Restore();
-        // Reset the undo action to a null action
-        refinementAction.reset(nullptr);
-        throw AlgorithmError("Unable to compute the Casulli de-refinement");
+        throw;
     }
 
     return refinementAction;
-- 
2.43.0


From 2ba5268a1fa5f5b39c6ca0bb9b6ae92c877357dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:21 +0000
Subject: [PATCH 90/99] fix: a line between missing points has no nearest point

---
 libs/MeshKernel/src/Operations.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index 418a62e..26c81a3 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -940,7 +940,7 @@ namespace meshkernel
                 normalPoint = firstNode + correctedRatio * (secondNode - firstNode);
                 distance = ComputeDistance(point, normalPoint, projection);
             }
-            else
+            else if (firstNode.IsValid())
             {
                 // The line is a single point
                 ratio = 0.0;
@@ -996,7 +996,7 @@ namespace meshkernel
                 const double referenceLongitude = std::max({firstNode.x, secondNode.x, point.x});
                 normalPoint = Cartesian3DToSpherical(cartesianNormal3DPoint, referenceLongitude);
             }
-            else
+            else if (firstNode.IsValid())
             {
                 // The line is a single point
                 normalPoint = firstNode;
-- 
2.43.0


From 099b7c10934178f5160bca8e95991686d8a6c30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:41 +0000
Subject: [PATCH 91/99] fix: a line to a separator is no line in accurate
 spherical coordinates either

---
 libs/MeshKernel/src/Operations.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index 26c81a3..7430673 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -927,6 +927,13 @@ namespace meshkernel
         double distance = constants::missing::doubleValue;
         Point normalPoint;
         double ratio = constants::missing::doubleValue;
+
+        if (!firstNode.IsValid() || !secondNode.IsValid())
+        {
+            // Not a line, one of the points is a separator
+            return {distance, normalPoint, ratio};
+        }
+
         if (projection == Projection::cartesian || projection == Projection::spherical)
         {
             const auto squaredDistance = ComputeSquaredDistance(secondNode, firstNode, projection);
@@ -940,7 +947,7 @@ namespace meshkernel
                 normalPoint = firstNode + correctedRatio * (secondNode - firstNode);
                 distance = ComputeDistance(point, normalPoint, projection);
             }
-            else if (firstNode.IsValid())
+            else
             {
                 // The line is a single point
                 ratio = 0.0;
@@ -996,7 +1003,7 @@ namespace meshkernel
                 const double referenceLongitude = std::max({firstNode.x, secondNode.x, point.x});
                 normalPoint = Cartesian3DToSpherical(cartesianNormal3DPoint, referenceLongitude);
             }
-            else if (firstNode.IsValid())
+            else
             {
                 // The line is a single point
                 normalPoint = firstNode;
-- 
2.43.0


From 5c228355729191f445e655b741b4b1430062d509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:41 +0000
Subject: [PATCH 92/99] fix: the offset distance of polygons in accurate
 spherical coordinates is in metres

---
 libs/MeshKernel/src/Polygon.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/libs/MeshKernel/src/Polygon.cpp b/libs/MeshKernel/src/Polygon.cpp
index a353502..4b3f92d 100644
--- a/libs/MeshKernel/src/Polygon.cpp
+++ b/libs/MeshKernel/src/Polygon.cpp
@@ -911,11 +911,9 @@ std::vector<meshkernel::Point> meshkernel::Polygon::ComputeOffset(double distanc
     // negative sign introduced because normal vector pointing inward
     distance = -distance;
 
-    // TODO should this be for spherical accurate too.
-    // The perhaps should either:
-    // 1. a function to determine if m_projection is a spherical kind (either spherical or spherical-accurate, or any other spherical type)
-    // 2. IFF projection will only include the current 3 types (check it is not cartesian) (should really add an uninitialised value)
-    if (m_projection == Projection::spherical)
+    const bool isSpherical = m_projection == Projection::spherical || m_projection == Projection::sphericalAccurate;
+
+    if (isSpherical)
     {
         distance = distance / (constants::geometric::earth_radius * constants::conversion::degToRad);
     }
@@ -924,8 +922,7 @@ std::vector<meshkernel::Point> meshkernel::Polygon::ComputeOffset(double distanc
     {
         Vector normal = distance * normalVectors[i];
 
-        // TODO should this be for spherical accurate too.
-        if (m_projection == Projection::spherical)
+        if (isSpherical)
         {
             // TODO is it worth having a special function for this, it must be elsewhere in the code too.
             normal.x() /= std::cos((m_nodes[i].y + 0.5 * normal.y()) * constants::conversion::degToRad);
-- 
2.43.0


From 1c750e3d0de14f8d020faf75f38044af1c437bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:17 +0000
Subject: [PATCH 93/99] fix: linear refinement of a polygon that ends with
 adding a point gave a missing point

---
 libs/MeshKernel/src/Polygon.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libs/MeshKernel/src/Polygon.cpp b/libs/MeshKernel/src/Polygon.cpp
index 4b3f92d..ed7c44e 100644
--- a/libs/MeshKernel/src/Polygon.cpp
+++ b/libs/MeshKernel/src/Polygon.cpp
@@ -621,6 +621,21 @@ std::vector<meshkernel::Point> meshkernel::Polygon::LinearRefine(const UInt star
         outerIter++;
     }
 
+    if (outerIter == maxOuterIter)
+    {
+        // The number of points changed in the last iteration
+        for (UInt iter = 1; iter <= maxInnerIter; ++iter)
+        {
+            smoothAverageLengths(cumulativeDistances, firstLength, lastLength, averageLengths);
+            smoothCumulativeDistance(averageLengths, cumulativeDistances);
+        }
+
+        for (UInt i = 0; i < cumulativeDistances.size(); ++i)
+        {
+            result[i] = interpolatePointOnPolyline(polygonNodes, initialCumulativeDistances, cumulativeDistances[i]);
+        }
+    }
+
     if (endIndex > startIndex)
     {
         result.insert(result.begin(), m_nodes.begin(), m_nodes.begin() + startIndex);
-- 
2.43.0


From 20f63a630f80ae95e121d8c98855eeb3434e7327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:48 +0000
Subject: [PATCH 94/99] fix: curvilinear orthogonalization in a block gave NaN
 on the first lines of the block

---
 .../CurvilinearGrid/CurvilinearGridOrthogonalization.cpp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
index 6eecf28..0844f88 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
@@ -265,9 +265,9 @@ void CurvilinearGridOrthogonalization::Solve()
     double omega = 1.0;
     const double factor = 0.9 * 0.9;
 
-    // Only the internal nodes of the orthogonalization box
-    const auto minMInternal = std::max(static_cast<UInt>(1), m_lowerLeft.m_m);
-    const auto minNInternal = std::max(static_cast<UInt>(1), m_lowerLeft.m_n);
+    // Only the internal nodes of the orthogonalization box, there are no coefficients for the others
+    const auto minMInternal = m_lowerLeft.m_m + 1;
+    const auto minNInternal = m_lowerLeft.m_n + 1;
 
     const auto maxMInternal = std::min(m_upperRight.m_m, m_grid.NumM() - 1);
     const auto maxNInternal = std::min(m_upperRight.m_n, m_grid.NumN() - 1);
-- 
2.43.0


From ad1d5b16374cf5296e89b62efad4c789671d5ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:48 +0000
Subject: [PATCH 95/99] fix: curvilinear orthogonalization moved boundary nodes
 at the ends of the block with missing coefficients

---
 .../CurvilinearGrid/CurvilinearGridOrthogonalization.cpp    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
index 0844f88..3034dff 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
@@ -130,7 +130,8 @@ void CurvilinearGridOrthogonalization::ProjectHorizontalBoundaryGridNodes()
                 for (auto nn = startN + 1; nn < n; ++nn)
                 {
 
-                    if (m < m_lowerLeft.m_m || m > m_upperRight.m_m || nn < m_lowerLeft.m_n || nn > m_upperRight.m_n)
+                    // There are no coefficients for the nodes at the ends of the block
+                    if (m < m_lowerLeft.m_m || m > m_upperRight.m_m || nn <= m_lowerLeft.m_n || nn >= m_upperRight.m_n)
                     {
                         continue;
                     }
@@ -211,7 +212,8 @@ void CurvilinearGridOrthogonalization::ProjectVerticalBoundariesGridNodes()
                 for (auto mm = startM + 1; mm < m; ++mm)
                 {
 
-                    if (mm < m_lowerLeft.m_m || mm > m_upperRight.m_m || n < m_lowerLeft.m_n || n > m_upperRight.m_n)
+                    // There are no coefficients for the nodes at the ends of the block
+                    if (mm <= m_lowerLeft.m_m || mm >= m_upperRight.m_m || n < m_lowerLeft.m_n || n > m_upperRight.m_n)
                     {
                         continue;
                     }
-- 
2.43.0


From 7cc426930df7d1428676d8ca4444d6faf636437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:04 +0000
Subject: [PATCH 96/99] fix: parallel frozen grid lines were refused as
 crossing

---
 .../src/CurvilinearGrid/CurvilinearGridAlgorithm.cpp        | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridAlgorithm.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridAlgorithm.cpp
index ad0712b..2988f91 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridAlgorithm.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridAlgorithm.cpp
@@ -75,6 +75,12 @@ void CurvilinearGridAlgorithm::SetLine(Point const& firstPoint, Point const& sec
     // Frozen lines cannot cross existing frozen lines
     for (auto const& frozenLine : m_lines)
     {
+        // Parallel lines do not cross
+        if (frozenLine.m_gridLineType == newGridline.m_gridLineType)
+        {
+            continue;
+        }
+
         for (auto i = frozenLine.m_startCoordinate; i <= frozenLine.m_endCoordinate; ++i)
         {
             for (auto j = newGridline.m_startCoordinate; j <= newGridline.m_endCoordinate; ++j)
-- 
2.43.0


From c71e000d3110a2117dbafaa038bf98b734b93449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 97/99] fix: no triangulation value where the search path does
 not arrive at the location

---
 .../src/TriangulationInterpolation.cpp        | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/libs/MeshKernel/src/TriangulationInterpolation.cpp b/libs/MeshKernel/src/TriangulationInterpolation.cpp
index bf8d8b5..307f19c 100644
--- a/libs/MeshKernel/src/TriangulationInterpolation.cpp
+++ b/libs/MeshKernel/src/TriangulationInterpolation.cpp
@@ -162,20 +162,25 @@ void TriangulationInterpolation::Compute()
                 }
             }
 
-            // the line to the location passes through a node: search all triangles
+            // the line to the location passes through a node
             if (!isNextTriangleFound)
             {
-                const auto containingTriangle = std::ranges::find_if(triangles, [&](const auto& nodes)
-                                                                     { return IsPointInPolygonNodes(m_locations[n], nodes, m_projection, trianglesCircumcenters[&nodes - triangles.data()]); });
-                if (containingTriangle != triangles.end())
-                {
-                    triangle = static_cast<UInt>(std::distance(triangles.begin(), containingTriangle));
-                    isInTriangle = true;
-                }
                 break;
             }
         }
 
+        // the search along the line did not arrive at the location: search all triangles
+        if (!isInTriangle)
+        {
+            const auto containingTriangle = std::ranges::find_if(triangles, [&](const auto& nodes)
+                                                                 { return IsPointInPolygonNodes(m_locations[n], nodes, m_projection, trianglesCircumcenters[&nodes - triangles.data()]); });
+            if (containingTriangle != triangles.end())
+            {
+                triangle = static_cast<UInt>(std::distance(triangles.begin(), containingTriangle));
+                isInTriangle = true;
+            }
+        }
+
         if (isInTriangle && triangle != constants::missing::uintValue && static_cast<int>(triangle) < triangulationWrapper.GetNumFaces())
         {
             // Perform linear interpolation
-- 
2.43.0


From b3ad48536fbe6cefb53fa0f0577491eebbaf8282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:28 +0000
Subject: [PATCH 98/99] fix: refined grid with coinciding discretization points
 has nodes that are not a number

---
 libs/MeshKernel/src/Operations.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index 7430673..da5d023 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -1464,11 +1464,18 @@ namespace meshkernel
                 for (UInt m = 1; m < numM; m++)
                 {
 
-                    const double wa = 1.0 /
-                                      (weightOne(n, m) +
-                                       weightOne(n + 1, m) +
-                                       weightTwo(n, m) +
-                                       weightTwo(n, m + 1));
+                    const double weightSum = weightOne(n, m) +
+                                             weightOne(n + 1, m) +
+                                             weightTwo(n, m) +
+                                             weightTwo(n, m + 1);
+
+                    if (!std::isfinite(weightSum))
+                    {
+                        // Points of the discretization coincide, keep the interpolated point
+                        continue;
+                    }
+
+                    const double wa = 1.0 / weightSum;
 
                     const auto x_coord = wa *
                                          (weightThree(n - 1, m) * weightOne(n, m) +
-- 
2.43.0


From 39b1d93d0bfb72e064e0a83bcb0430e9a0c56e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:27 +0000
Subject: [PATCH 99/99] fix: Casulli refinement leaves the original edge
 between two kept corner nodes over its replacement

---
 .../include/MeshKernel/CasulliRefinement.hpp      |  3 ++-
 libs/MeshKernel/src/CasulliRefinement.cpp         | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp b/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp
index 8214699..e1dbac0 100644
--- a/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp
+++ b/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp
@@ -197,8 +197,9 @@ namespace meshkernel
         ///
         /// @param [in, out] mesh The mesh
         /// @param [in] numNodes The original number of nodes in the mesh
+        /// @param [in] numEdges The original number of edges in the mesh
         /// @param [in] nodeMask Node mask information
-        [[nodiscard]] static std::unique_ptr<meshkernel::UndoAction> Administrate(Mesh2D& mesh, const UInt numNodes, const std::vector<NodeMask>& nodeMask);
+        [[nodiscard]] static std::unique_ptr<meshkernel::UndoAction> Administrate(Mesh2D& mesh, const UInt numNodes, const UInt numEdges, const std::vector<NodeMask>& nodeMask);
     };
 
 } // namespace meshkernel
diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index c5e8ce2..1e8397a 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -58,7 +58,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(M
         refinementAction->Add(ComputeNewNodes(mesh, newNodes, nodeMask));
         refinementAction->Add(ConnectNewNodes(mesh, newNodes, numNodes, numEdges, numFaces, nodeMask));
         refinementAction->Add(mesh.DeleteDuplicateEdges());
-        refinementAction->Add(Administrate(mesh, numNodes, nodeMask));
+        refinementAction->Add(Administrate(mesh, numNodes, numEdges, nodeMask));
     }
     catch (...)
     {
@@ -219,7 +219,7 @@ std::vector<meshkernel::CasulliRefinement::NodeMask> meshkernel::CasulliRefineme
     return nodeMask;
 }
 
-std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Administrate(Mesh2D& mesh, const UInt numNodes, const std::vector<NodeMask>& nodeMask)
+std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Administrate(Mesh2D& mesh, const UInt numNodes, const UInt numEdges, const std::vector<NodeMask>& nodeMask)
 {
 
     std::unique_ptr<meshkernel::CompoundUndoAction> administrateAction = CompoundUndoAction::Create();
@@ -233,6 +233,17 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Administr
         }
     }
 
+    // A boundary edge between two nodes that are kept has been replaced by the edges along it
+    for (UInt i = 0; i < numEdges; ++i)
+    {
+        const auto [firstNode, secondNode] = mesh.GetEdge(i);
+
+        if (mesh.m_edgesNumFaces[i] == 1 && mesh.IsValidEdge(i) && nodeMask[firstNode] == NodeMask::CornerNode && nodeMask[secondNode] == NodeMask::CornerNode)
+        {
+            administrateAction->Add(mesh.DeleteEdge(i));
+        }
+    }
+
     mesh.Administrate(administrateAction.get());
     return administrateAction;
 }
-- 
2.43.0

