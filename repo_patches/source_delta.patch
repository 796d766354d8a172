From 2c68b5b99f1f8dd4441a4f0a2fd1d7a9e33ca28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 01/64] fix: missing semicolon that kept VTKMeshReader.h and
 UnstructuredMesh.h from compiling

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index 5c0f017..d4e8a08 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -21,7 +21,7 @@ public:
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     VTKMeshReader(const MeshElements<MeshDimension, IndexType, Real, Reserve...>&){}
 
-    virtual ~VTKMeshReader() = default
+    virtual ~VTKMeshReader() = default;
 };
 
 
-- 
2.43.0


From f9de5c9a821b8239034a57ac96951a4eab213541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 02/64] fix: scalar product accumulates in the vector's own
 type instead of double

---
 src/GTMesh/NumericStaticArray/InlineArrayOperations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/NumericStaticArray/InlineArrayOperations.h b/src/GTMesh/NumericStaticArray/InlineArrayOperations.h
index 0dde6c7..d433dc0 100644
--- a/src/GTMesh/NumericStaticArray/InlineArrayOperations.h
+++ b/src/GTMesh/NumericStaticArray/InlineArrayOperations.h
@@ -13,7 +13,7 @@ struct inlineScalarProduct {
 template <typename Real>
 struct inlineScalarProduct<1, Real>
 {
-    static inline double computation(const Real *x, const Real *y){
+    static inline Real computation(const Real *x, const Real *y){
         return x[0] * y[0];
     }
 };
-- 
2.43.0


From 0a6a14e7a2c7a37146201a1fdcc14ef5df1bdf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 03/64] fix: dividing a vector by an integer no longer divides
 in integer arithmetic first

---
 src/GTMesh/NumericStaticArray/Vertex.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/NumericStaticArray/Vertex.h b/src/GTMesh/NumericStaticArray/Vertex.h
index 4d5f401..7607fdd 100644
--- a/src/GTMesh/NumericStaticArray/Vertex.h
+++ b/src/GTMesh/NumericStaticArray/Vertex.h
@@ -133,7 +133,9 @@ Vertex<Dim, Real> operator*(const Real& x, const Vertex<Dim, Real>& vert) {
 template <unsigned int Dim, typename Real>
 template <typename RealOP>
 Vertex<Dim, Real> Vertex<Dim, Real>::operator/(const RealOP& x) const {
-    return this->operator*(RealOP(1.0)/x);
+    Vertex<Dim, Real> res(*this);
+    res /= x;
+    return res;
 }
 
 
@@ -172,7 +174,9 @@ Vertex<Dim, Real>& Vertex<Dim, Real>::operator*=(const RealOP& x){
 template <unsigned int Dim, typename Real>
 template <typename RealOP>
 Vertex<Dim, Real>& Vertex<Dim, Real>::operator/=(const RealOP& x){
-    this->operator*=(Real(1.0)/x);
+    for(unsigned int i = 0; i < Dim; i++) {
+        this->operator[](i) /= x;
+    }
     return *this;
 }
 
-- 
2.43.0


From 41423e224c9a2b995d0b1ef32efba67ccca864ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 04/64] fix: assigning coordinates to a mesh vertex works for
 every real type

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 8a74afb..7eaf2d8 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -186,8 +186,8 @@ public:
         :MeshElementBase<IndexType>(index), Vertex<MeshDim, Real>(v) {
 
     }
-    MeshElement<MeshDim, 0, IndexType, Real>& operator =(std::initializer_list<Real> l){
-        this->Vertex<MeshDim,double>::operator=(l);
+    MeshElement<MeshDim, 0, IndexType, Real, Reserve>& operator =(std::initializer_list<Real> l){
+        this->Vertex<MeshDim, Real>::operator=(l);
         return *this;
     }
 };
-- 
2.43.0


From 57c45300265842e080f85f3d2f5d242ed40e3211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 05/64] fix: removing a subelement compiles and stays inside
 the container

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 7eaf2d8..2357de2 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -98,7 +98,7 @@ public:
             for(unsigned char i = atIndex; i < numberOfElements - 1; i++){
                 this->at(i) = this->at(i+1);
             }
-            this->at(numberOfElements) = {INVALID_INDEX(IndexType), false};
+            this->at(numberOfElements - 1) = INVALID_INDEX(IndexType);
             numberOfElements--;
         } else {
             throw(std::runtime_error(
@@ -135,7 +135,7 @@ public:
     }
 
     void removeSubelement(unsigned char atIndex){
-        this->erase(atIndex);
+        this->erase(this->begin() + atIndex);
     }
 };
 
-- 
2.43.0


From 86cd2c74c652dee7dc6a05aceb3c606e59c85df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 06/64] fix: getElement works on a constant mesh

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index 69dcc8d..b508449 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -86,7 +86,7 @@ public:
 
     template<unsigned int dim>
     const ElementType<dim>&  getElement(const ElementIndex<dim, IndexType>& elementIndex) const {
-        return getElements<dim>()[elementIndex];
+        return getElements<dim>()[elementIndex.index];
     }
 
     std::vector<Vertex>& getVertices(){
-- 
2.43.0


From 325e6e237f31d52103573fecc246e082c4855c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 07/64] fix: clearing a mesh also removes its boundary cells

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index b508449..06d7299 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -157,6 +157,7 @@ public:
      */
     void clear() {
         _ClearMesh<Dimension>::clear(*this);
+        BoundaryCells.clear();
     }
 
     void appendBoundaryCell(IndexType cellIndex, IndexType faceIndex){
-- 
2.43.0


From e8b4ec13280c440422e8ab57e31cdd368d861623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 08/64] fix: swapping the sides of a boundary element keeps the
 next element of each cell

---
 .../MeshElements/CellBoundaryConnection.h           | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h b/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h
index 2d75d41..4dbd62d 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h
@@ -39,6 +39,11 @@ public:
 
     IndexType getNextBElem(IndexType cellIndex) const;
 
+    /**
+     * @brief swaps the left and right cell indexes together
+     * with the corresponding next boundary elements
+     */
+    void swapCellsLR();
 
 };
 
@@ -172,6 +177,14 @@ IndexType CellBoundaryConnection<IndexType>::getNextBElem(IndexType cellIndex) c
     }
 }
 
+template<typename IndexType>
+void CellBoundaryConnection<IndexType>::swapCellsLR() {
+    CellConnection<IndexType>::swapCellsLR();
+
+    IndexType nextLeft = getNextBElemWRTCR();
+    setNextBElemWRTCR(getNextBElemWRTCL());
+    setNextBElemWRTCL(nextLeft);
+}
 
 
 
-- 
2.43.0


From 40d7adac5d6aa198825adc467ae8a6da3effcf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 09/64] fix: allocating data according to another data
 container compiles

---
 .../MeshDataContainer/MeshDataContainer.h                 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
index 20e9588..d783e7e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
@@ -116,9 +116,9 @@ private:
         allocateMemory<pos + 1>(mesh, initialValue);
     }
 
-    template <unsigned int pos, typename ..._DataTypes, unsigned int ..._Dimensions>
+    template <unsigned int pos, typename _DataType, unsigned int ..._Dimensions>
     std::enable_if_t<(pos < sizeof...(Dimensions))>
-    allocateMemory(const MeshDataContainer<_DataTypes..., _Dimensions...>& meshDataContainer) {
+    allocateMemory(const MeshDataContainer<_DataType, _Dimensions...>& meshDataContainer) {
         getDataByPos<pos>().resize(meshDataContainer.template getDataByDim<dimensionAt<pos>()>().size());
         allocateMemory<pos + 1>(meshDataContainer);
     }
@@ -531,9 +531,9 @@ private:
         allocateMemory<pos + 1>(mesh, values...);
     }
 
-    template <unsigned int pos, typename ..._DataTypes, unsigned int ..._Dimensions>
+    template <unsigned int pos, typename _DataType, unsigned int ..._Dimensions>
     std::enable_if_t<(pos < sizeof...(Dimensions))>
-    allocateMemory(const MeshDataContainer<_DataTypes..., _Dimensions...>& meshDataContainer) {
+    allocateMemory(const MeshDataContainer<_DataType, _Dimensions...>& meshDataContainer) {
         getDataByPos<pos>().resize(meshDataContainer.template getDataByDim<dimensionAt<pos>()>().size());
         allocateMemory<pos + 1>(meshDataContainer);
     }
-- 
2.43.0


From e02c24666e847b71f1299ded4eaaf48c4f477580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 10/64] fix: the position operator of a tuple data container
 selects by position

---
 .../UnstructuredMesh/MeshDataContainer/MeshDataContainer.h    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
index d783e7e..13b3052 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
@@ -619,7 +619,7 @@ public:
      * @endcode
      */
     template <unsigned int Pos>
-    DataContainer<std::tuple_element_t<dimensionIndex<Pos>(), std::tuple<DataTypes...>>, Pos>&
+    DataContainer<DataType<Pos>, dimensionAt<Pos>()>&
     operator[](std::integer_sequence<unsigned int, Pos>) {
         return getDataByPos<Pos>();
     }
@@ -635,7 +635,7 @@ public:
      * @endcode
      */
     template <unsigned int Pos>
-    const DataContainer<std::tuple_element_t<dimensionIndex<Pos>(), std::tuple<DataTypes...>>, Pos>&
+    const DataContainer<DataType<Pos>, dimensionAt<Pos>()>&
     operator[](std::integer_sequence<unsigned int, Pos>) const {
         return getDataByPos<Pos>();
     }
-- 
2.43.0


From f15e85ce9169e7db5fce4d00e36a09ac44fad368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 11/64] fix: names of data container attributes keep zeros of
 the dimension and stay in bounds

---
 .../MeshDataContainerTraits/MeshDataContainerTraits.h         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
index 6bcd7d0..1ed6b6e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
@@ -17,13 +17,13 @@ public:
             int i = 4;
             for (unsigned int mod = 100; mod > 0; mod /= 10){
                 int digit = dim / mod;
-                if (digit > 0) {
+                if (digit > 0 || i > 4 || mod == 1) {
                     name[i] = '0' + char(digit);
                     i++;
                 }
                 dim -= digit * mod;
             }
-            name[i + 1] = '\0';
+            name[i] = '\0';
         }
     };
 
-- 
2.43.0


From 23cffa368e87a5c31393abe15aaf7def60a105d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 12/64] fix: connections and neighborhood in original order
 compile (ElementIndex is default constructible)

---
 src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
index c3795e9..6920ab3 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
@@ -10,6 +10,8 @@ template<unsigned int ElementDimension, typename IndexType = unsigned int>
 struct ElementIndex {
     IndexType index;
 
+    ElementIndex() : index() {}
+
     ElementIndex(const ElementIndex&) = default;
     ElementIndex& operator=(const ElementIndex& rhs){
         index = rhs.index;
-- 
2.43.0


From 7d0939b2513d4a2474caca519a22fb7fc46909b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 13/64] fix: random coloring of a mesh without colored elements
 does not read past the end

---
 src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
index 9557cf2..3df7996 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
@@ -126,6 +126,9 @@ struct _MeshColoring <ColoredDim, ConnectingDim, METHOD_RANDOM, Descend> {
         // calculating the reserve
         auto result = _MeshColoring<ColoredDim, ConnectingDim, METHOD_GREEDY>::color(mesh);
 
+        // there is nothing to color
+        if (result.template getDataByPos<0>().empty()) return result;
+
         // get maximal color index
         auto max = std::max_element(result.template getDataByPos<0>().begin(), result.template getDataByPos<0>().end());
 
-- 
2.43.0


From edd5cefb9ab375d7c6a4b5df56abac1f9110eeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 14/64] fix: center difference of a face without left cell
 points from left to right

---
 .../MeshFunctions/ComputeCellsCenterDifference.h                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
index ce8bbf0..ba6aa46 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
@@ -24,7 +24,7 @@ MeshDataContainer<Vector<Dimension, Real>, Dimension - 1> computeCellsCenterDiff
                 connectingLines.at(face) = face.getCenter() - mesh.getCells().at(face.getCellLeftIndex()).getCenter();
 
             } else if (isInvalidIndex(face.getCellLeftIndex()) && !isInvalidIndex(face.getCellRightIndex())) {
-                connectingLines.at(face) = face.getCenter() - mesh.getCells().at(face.getCellRightIndex()).getCenter();
+                connectingLines.at(face) = mesh.getCells().at(face.getCellRightIndex()).getCenter() - face.getCenter();
             }
         }
 
-- 
2.43.0


From 0ca007186e8c3afd67fdbb6ac9fca19dd5e481a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 15/64] fix: the tessellated method is used when computing
 measures

---
 .../MeshFunctions/ComputeMeasures.h              | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
index 624b2a2..058627c 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
@@ -111,7 +111,7 @@ struct _ComputeMeasures<1, MeshDimension, Method>{
                                          mesh.getVertices().at(edge.getVertexBIndex())).normEuclid();
         }
 
-        _ComputeMeasures<2, MeshDimension>::compute(measures, mesh);
+        _ComputeMeasures<2, MeshDimension, Method>::compute(measures, mesh);
     }
 
     template <typename IndexType, typename Real, unsigned int ...Reserve>
@@ -128,7 +128,7 @@ struct _ComputeMeasures<1, MeshDimension, Method>{
                                          mesh.getVertices().at(edge.getVertexBIndex())).normEuclid();
         }
 
-        _ComputeMeasures<2, MeshDimension>::compute(measures, centers, mesh);
+        _ComputeMeasures<2, MeshDimension, Method>::compute(measures, centers, mesh);
     }
 };
 
@@ -229,7 +229,7 @@ struct _ComputeMeasures<2, 3, Method>{
             }
             surfaceMeasures.at(faceIndex) = measure;
         }
-        _ComputeMeasures<3, 3>::compute(measures, mesh);
+        _ComputeMeasures<3, 3, Method>::compute(measures, mesh);
     }
 };
 
@@ -248,19 +248,19 @@ struct _ComputeMeasures<3, 3, METHOD_TESSELLATED>{
         auto& cellMeasures = measures.template getDataByDim<3>();
 
         for (IndexType cellIndex = 0; cellIndex < mesh.getCells().size(); cellIndex++) {
-            typename MeshElements<3, IndexType, Real, Reserve...>::template ElementType<3>& cell = mesh.getCells().at(cellIndex);
-            Vertex<3,Real>& cellCenter = cell.getCenter();
+            const auto& cell = mesh.getCells().at(cellIndex);
+            const Vertex<3,Real>& cellCenter = cell.getCenter();
             Real measure = Real();
             MeshApply<3,2>::apply(
                         cellIndex,
                         mesh,
                 [&cellCenter, &cellMeasures, &mesh, &measure](IndexType , IndexType faceIndex){
 
-                Vertex<3,Real>& faceCenter = mesh.getFaces().at(faceIndex).getCenter();
+                const Vertex<3,Real>& faceCenter = mesh.getFaces().at(faceIndex).getCenter();
 
                 MeshApply<2,1>::apply(faceIndex, mesh, [&](IndexType , IndexType edgeIndex){
-                    Vertex<3,Real>& vertA = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexAIndex());
-                    Vertex<3,Real>& vertB = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexBIndex());
+                    const Vertex<3,Real>& vertA = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexAIndex());
+                    const Vertex<3,Real>& vertB = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexBIndex());
 
                     std::array<Vertex<3,Real>, 3> pyramidVec = {vertA - faceCenter, vertB - faceCenter, cellCenter - faceCenter};
                     std::array<Real, 3> norms;
-- 
2.43.0


From e7fb853f961363e35032250d473ae443118198b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 16/64] fix: initializing centers from given ones compiles

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 7370697..6b90bfc 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -54,10 +54,10 @@ public:
                            ::Vertex<MeshDimension, Real>,
                            dimensionSeq> &centers)
     {
-        for (const auto &face : this->getFaces()) {
+        for (auto &face : this->getFaces()) {
             face.setCenter(centers[face]);
         }
-        for (const auto &cell : this->getCells()) {
+        for (auto &cell : this->getCells()) {
             cell.setCenter(centers[cell]);
         }
     }
-- 
2.43.0


From 9b85f44cde448fd684c556ebe3bd0748fb26fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 17/64] fix: mesh writers start with a defined hash of the last
 mesh

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h | 2 +-
 src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
index a018999..43fa631 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
@@ -21,7 +21,7 @@ template<typename IndexType, typename Real>
 class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
 
      using writer = MeshWriter<3>;
-    size_t lastHash;
+    size_t lastHash = 0;
     /**
      * @brief faceVert<HR>
      * correctly erdered vertices for all faces
diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 1e1b92b..676dae1 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -36,7 +36,7 @@ private:
      * @brief lastHash<HR>
      * The hash of the last written mesh.
      */
-    size_t lastHash;
+    size_t lastHash = 0;
     /**
      * @brief cellVert<HR>
      * Vertices of all cells in correct order for vtk export.
-- 
2.43.0


From 35f4a23c2772db3502cb5d150f8963c8b8615743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 18/64] fix: VTK cells on the right side of their base face are
 turned inward

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 676dae1..63d45bd 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -242,7 +242,7 @@ public:
 
         IndexType startVertex = INVALID_INDEX(IndexType);
         IndexType nextVertex = INVALID_INDEX(IndexType);
-        if (faceEdgeOri[face][0] == true && cell.getIndex() == face.getCellLeftIndex()){ // the edge is left to the face
+        if (faceEdgeOri[face][0] == (cell.getIndex() == face.getCellLeftIndex())){ // the edge is left to the face seen from the cell
             startVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexBIndex();
             nextVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexAIndex();
         } else {
-- 
2.43.0


From 11824434a3aad22a800fa362e4feda726a6fe0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 19/64] fix: splitting cells into tetrahedrons keeps close
 centers apart

---
 .../MeshIO/MeshWriter/VTKMeshWriter.h         | 25 ++++++-------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 63d45bd..6c4800c 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -421,7 +421,8 @@ DBGMSG("indexing mesh");
         // this is very expensive procedure
         auto faceEdgeOri = edgesOrientation(mesh);
 
-        std::map<std::string, IndexType> appendedVertPos;
+        // positions of the centers of the already split faces
+        std::map<IndexType, IndexType> appendedFaceCenters;
 
 
 
@@ -513,17 +514,8 @@ DBGMSG("indexing mesh");
 
                 IndexType tmpFace = cell.getBoundaryElementIndex();
                 IndexType cellCenterIndex = INVALID_INDEX(IndexType);
-                std::string cellCenterKey = std::to_string(cell.getCenter()[0]) +
-                        ";" + std::to_string(cell.getCenter()[1]) +
-                        ";" + std::to_string(cell.getCenter()[2]);
-                auto it = appendedVertPos.find(cellCenterKey);
-                if (it == appendedVertPos.end()) {
-                    appendedVertPos[cellCenterKey] = appendedVertices.size() + mesh.getVertices().size();
-                    cellCenterIndex = appendedVertices.size() + mesh.getVertices().size();
-                    appendedVertices.push_back(cell.getCenter());
-                } else {
-                    cellCenterIndex = it->second;
-                }
+                cellCenterIndex = appendedVertices.size() + mesh.getVertices().size();
+                appendedVertices.push_back(cell.getCenter());
 
                 do {
                     auto& face = mesh.getFaces().at(tmpFace);
@@ -534,14 +526,11 @@ DBGMSG("indexing mesh");
                         vertWrit.reserve(4);
                         vertWrit.push_back(edge.getVertexAIndex());
                         vertWrit.push_back(edge.getVertexBIndex());
-                        std::string faceCenterKey = std::to_string(face.getCenter()[0]) +
-                                ";" + std::to_string(face.getCenter()[1]) +
-                                ";" + std::to_string(face.getCenter()[2]);
                         IndexType faceCenterIndex = INVALID_INDEX(IndexType);
-                        auto it = appendedVertPos.find(faceCenterKey);
-                        if (it == appendedVertPos.end()) {
+                        auto it = appendedFaceCenters.find(face.getIndex());
+                        if (it == appendedFaceCenters.end()) {
                             faceCenterIndex = appendedVertices.size() + mesh.getVertices().size();
-                            appendedVertPos[faceCenterKey] = faceCenterIndex;
+                            appendedFaceCenters[face.getIndex()] = faceCenterIndex;
                             appendedVertices.push_back(face.getCenter());
                         } else {
                             faceCenterIndex = it->second;
-- 
2.43.0


From 921c74cc9f77bdda2277affb8a07656e993ec373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 20/64] fix: VTK writer follows changed cell types of an
 unchanged mesh

---
 .../MeshIO/MeshWriter/VTKMeshWriter.h               | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 6c4800c..7519680 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -209,6 +209,12 @@ public:
     MeshDataContainer<std::vector<IndexType>, 3> cellVert;
     MeshDataContainer<typename writer::elementType::ElementType, 3> cellTypes;
 
+    /**
+     * @brief lastCellTypes<HR>
+     * The types of cells requested for the last written mesh.
+     */
+    MeshDataContainer<typename writer::elementType::ElementType, 3> lastCellTypes;
+
     /**
      * @brief totalNumberOfWrittenElements<HR>
      * Information required by VTK format.
@@ -574,12 +580,15 @@ DBGMSG("indexing mesh");
                        MeshDataContainer<typename writer::elementType::ElementType, 3> cellTypes){
         // create index of mesh if the mesh has changed
         size_t curHash = writer::computeHash(mesh);
-        // if the mesh is not the same as it was,
+        // if the mesh is not the same as it was
+        // or the requested types of cells differ,
         // then update the index
-        if (lastHash != curHash){
+        if (lastHash != curHash ||
+            lastCellTypes.template getDataByPos<0>() != cellTypes.template getDataByPos<0>()){
             indexMesh(mesh, cellTypes);
         }
         lastHash = curHash;
+        lastCellTypes = cellTypes;
 
 
         // first write verices
-- 
2.43.0


From 27f453649edadddf25b748e6998f9218dd4300ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 21/64] fix: VTK reader refuses unsupported cell types

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index d4e8a08..9caef0f 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -141,7 +141,7 @@ public:
             if (typeIt != TypeConversionTable.end()){
                 cellTypes.template getDataByPos<0>().at(i) = typeIt->second;
             } else {
-                std::runtime_error("unsupported cell type");
+                throw std::runtime_error("unsupported cell type");
             }
         }
     }
@@ -420,7 +420,7 @@ public:
             if (typeIt != TypeConversionTable.end()){
                 cellTypes.template getDataByPos<0>().at(i) = typeIt->second;
             } else {
-                std::runtime_error("unsupported cell type");
+                throw std::runtime_error("unsupported cell type");
             }
         }
     }
-- 
2.43.0


From 0fc477e3c187102a748e63e128e075e57f02859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 22/64] fix: FPMA reader clears the mesh it loads into

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
index 415ad17..0a3d861 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
@@ -156,6 +156,8 @@ public:
     void loadFromStream(std::istream& ist,MeshElements<3, IndexType, Real, Reserve...>& mesh){
         ist.seekg(ist.beg);
 
+        mesh.clear();
+
         loadVertices(ist, mesh);
 
         loadFaces(ist, mesh);
-- 
2.43.0


From ec881cf3e6a553e0c15faf33be4b77c6b4003610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 23/64] fix: 2D VTK reader updates the signature of the mesh

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index 9caef0f..4cf653a 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -188,6 +188,7 @@ public:
             loadCellTypes(ist, mesh);
         }
 
+        mesh.updateSignature();
     }
 
     template<typename IndexType, typename Real, unsigned int ...Reserve>
-- 
2.43.0


From 6c0ad5a833ecb4ef479443e239e0ab36507043a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:04 +0000
Subject: [PATCH 24/64] fix: the file format is chosen by the extension of the
 file name

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 6b90bfc..42457a6 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -249,14 +249,14 @@ public:
             throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
         }
 
-        if (filePath.find(".vtk") != filePath.npos){
+        if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
             auto reader = new VTKMeshReader<MeshDimension>();
             reader->loadFromStream(file, *this);
             reader_ptr = retType(reader);
         }
 
-        if (filePath.find(".fpma") != filePath.npos){
+        if (checkExtension(filePath, ".fpma")){
             DBGMSG("file recognized as FPMA");
             auto reader = new FPMAMeshReader<MeshDimension>();
             reader->loadFromStream(file, *this);
@@ -284,7 +284,7 @@ public:
             throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
         }
 
-        if (filePath.find(".vtk") != filePath.npos){
+        if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
             auto reader = new VTKMeshReader<MeshDimension>();
             reader->loadFromStream(file, *this);
@@ -352,8 +352,8 @@ private:
      * @brief Returns true if the filePath string ends with the string ext
      */
     bool checkExtension(const std::string& filePath, const std::string& ext){
-        std::string fileExt = filePath.substr(filePath.find_last_of("."));
-        return fileExt == ext;
+        size_t dotPosition = filePath.find_last_of(".");
+        return dotPosition != filePath.npos && filePath.substr(dotPosition) == ext;
     }
 public:
     /**
-- 
2.43.0


From a0877c99c5b8ba55e66df1c259cbf8644d8dd335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 25/64] fix: the mesh signature reflects order and cells of its
 elements

---
 .../MeshElements/MeshElements.h                 | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index 06d7299..51cf583 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -201,6 +201,19 @@ private:
     template<unsigned int Dim = Dimension, typename Void = void>
     struct HashOfMeshElements{
 
+        // Only the elements of dimension Dimension - 1 are connected to cells
+        static void hashCellConnection(const CellBoundaryConnection<IndexType>& element, size_t& elemHash)
+        {
+            std::hash<IndexType> indexHasher;
+            for (IndexType index : {element.getCellLeftIndex(), element.getCellRightIndex(),
+                                    element.getNextBElemWRTCL(), element.getNextBElemWRTCR()}) {
+                elemHash = elemHash * 31 + indexHasher(index);
+            }
+        }
+
+        template<typename Element>
+        static typename std::enable_if<!std::is_base_of<CellBoundaryConnection<IndexType>, Element>::value>::type
+        hashCellConnection(const Element&, size_t&) {}
 
         static size_t hash(MeshElements<Dimension, IndexType, Real, Reserve...>& mesh)
         {
@@ -209,9 +222,11 @@ private:
             // Hash of generic element eg. face
             size_t elemHash = mesh.getElements<Dim>().size();
             for(auto& element : mesh.getElements<Dim>()) {
+                elemHash = elemHash * 31 + element.getSubelements().size();
                 for (auto& subElement : element.getSubelements()) {
-                    elemHash ^= indexHasher(subElement);
+                    elemHash = elemHash * 31 + indexHasher(subElement);
                 }
+                hashCellConnection(element, elemHash);
             }
             return elemHash ^ HashOfMeshElements<Dim - 1>::hash(mesh);
         }
-- 
2.43.0


From 3ecdda713abb8903c53826e3861511dc67f7bddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:38 +0000
Subject: [PATCH 26/64] fix: a new cell has no boundary element and a new mesh
 a defined signature

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h  | 2 +-
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 2357de2..4a4dc5a 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -246,7 +246,7 @@ class MeshElement<MeshDim, MeshDim, IndexType, Real, Reserve>
         : public MeshElementBase<IndexType>,
           public ComputationallySignificantElement<MeshDim, Real>{
 
-    IndexType boundaryElementIndex;
+    IndexType boundaryElementIndex = INVALID_INDEX(IndexType);
 public:
 //GetBoundaryElement
     MeshElement(IndexType index = INVALID_INDEX(IndexType))
diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index 51cf583..02bbac3 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -62,7 +62,7 @@ private:
      * @brief Hash signature of the mash elements.
      * Use to detect changes in mesh.
      */
-    size_t meshSignature;
+    size_t meshSignature = 0;
 
 
 public:
-- 
2.43.0


From 573b9b9dfd893d43503e8025b9d38056a1c499a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:06 +0000
Subject: [PATCH 27/64] fix: reading and writing of single and multiple data
 containers on cells compile

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h        | 6 +++---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h        | 1 -
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 44bccec..4d253a0 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -48,7 +48,7 @@ class VTKMeshDataReader {
                            std::map<std::string, std::istream::pos_type>& dataPositions,
                            const Traits<T, TraitsArgs...>& traits)
         -> typename std::enable_if<
-            IsIndexable<typename DefaultIOTraits<T>::traitsType::template type<Index>>::value &&
+            IsIndexable<typename Traits<T, TraitsArgs...>::template type<Index>>::value &&
             MeshDimension == 2
             >::type
     {
@@ -150,7 +150,7 @@ public:
 
         std::map<std::string, std::istream::pos_type> dataPositions = indexData(ist);
 
-        readData(ist, data, dataPositions);
+        constexprFor<ReadData, DefaultIOTraits<T>::size()>(ist, data, dataPositions, DefaultIOTraits<T>::getTraits());
     }
     // Search for importable containers
 
@@ -181,7 +181,7 @@ public:
             using type =
                 typename MeshDataContainer<T, Dimensions...>::template DataContainerType<Index>::type;
 
-            MeshDataIterator<Index - 1, true>::writeToStream(ist, data, dataPositions, tupTraits);
+            MeshDataIterator<Index - 1, true>::readFromStream(ist, data, dataPositions, tupTraits);
 
             constexprFor<ReadData, SelectTraitsWithIODefault<type, TraitsTuple...>::TypeTraits::size()>(
                 ist,
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index 4cb8086..19e9404 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -226,7 +226,6 @@ public:
         static_assert (HasDefaultIOTraits<type>::value, "The class T must have defined traits for example using macro MAKE_ATTRIBUTE_TRAIT in header Traits.h");
         ost << "CELL_DATA " << writer.getNumberOfCells() << std::endl;
         constexprFor<WriteData, DefaultIOTraits<T>::size()>(ost, data, writer, DefaultIOTraits<T>::getTraits());
-        writeData(ost, data, writer);
     }
 
 private:
-- 
2.43.0


From 6292a3185ccec03a35a2705cc1c30cb7c71a4d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:06 +0000
Subject: [PATCH 28/64] fix: tensors are written with the keyword of the VTK
 format and read back

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h          | 1 +
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h          | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 4d253a0..19c2062 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -125,6 +125,7 @@ public:
 
             int flag = (line.find("SCALARS")!= line.npos ? 1
                                                           : line.find("VECTORS") != line.npos ? 2
+                                                          : line.find("TENSORS") != line.npos ? 3
                                                                                               : 0 );
             if (flag != 0){
                 std::string dataName;
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index 19e9404..b87dcd6 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -55,7 +55,7 @@ class VTKMeshDataWriter {
         if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension)
             ost << "VECTORS ";
         else if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension * MeshDimension)
-            ost << "TENZORS ";
+            ost << "TENSORS ";
 
         ost << traits.template getName<Index>() << " double\n";
 
@@ -149,7 +149,7 @@ class VTKMeshDataWriter {
         if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension)
             ost << "VECTORS ";
         else if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension * MeshDimension)
-            ost << "TENZORS ";
+            ost << "TENSORS ";
 
         ost << traits.template getName<Index>() << " double\n";
 
-- 
2.43.0


From 773ee3dacc077ce65a845f46a3fcc55cd4bc174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:21 +0000
Subject: [PATCH 29/64] fix: FPMA writer and writing of 3D meshes to files
 compile

---
 .../UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
index 43fa631..90cdb57 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
@@ -26,13 +26,13 @@ class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
      * @brief faceVert<HR>
      * correctly erdered vertices for all faces
      */
-    MeshDataContainer<std::vector<ElementIndex<2, IndexType>>, 2> faceVert;
+    MeshDataContainer<std::vector<ElementIndex<0, IndexType>>, 2> faceVert;
 
     /**
      * @brief cellFace<HR>
      * original order of faces
      */
-    MeshDataContainer<std::vector<ElementIndex<3, IndexType>>, 3> cellFace;
+    MeshDataContainer<std::vector<ElementIndex<2, IndexType>>, 3> cellFace;
 
     /**
      * @brief This funcion return indexes of vertices of a face in correct order
@@ -47,7 +47,7 @@ class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
     template<unsigned int ...Reserve>
     void indexFace(MeshElements<3, IndexType, Real, Reserve...>& mesh,
                    typename MeshElements<3, IndexType, Real, Reserve...>::Face& face,
-                   std::vector<ElementIndex<3, IndexType>>& verticesIndexed){
+                   std::vector<ElementIndex<0, IndexType>>& verticesIndexed){
 
         // export the face in "left" direction see VTK export
         IndexType startVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexBIndex();
-- 
2.43.0


From 247dfadd061963d9ba50397f3000dcece0ac95b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 30/64] fix: values written after a reading are read next

---
 src/GTMesh/BinarySerializer/BinarySerializer.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index 38fc76c..a71bce5 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -65,13 +65,16 @@ public:
     template <typename T>
     void read(T& data) {
         resetIteratorIfNotValid();
-        readNext(mDataIterator, data);
+        ByteContainerIterator dataIterator = mData.cbegin() + mPosition;
+        readNext(dataIterator, data);
+        mPosition = dataIterator - mData.cbegin();
     }
 
     template <typename T>
     T read() {
-        resetIteratorIfNotValid();
-        return readNext<T>(mDataIterator);
+        T data;
+        read(data);
+        return data;
     }
 
     template <typename T>
@@ -81,11 +84,11 @@ public:
     }
 
     void resetIterator() {
-        mDataIterator = mData.cbegin();
+        mPosition = 0;
     }
 
     bool isIteratorValid() {
-        return mData.begin() <= mDataIterator && mData.end() > mDataIterator;
+        return mPosition < mData.size();
     }
 
     void resetIteratorIfNotValid() {
@@ -101,7 +104,7 @@ public:
      */
     void clear() {
         mData.clear();
-        mDataIterator = {};
+        mPosition = 0;
     }
 
     const ByteContainer& getData() {
@@ -133,7 +136,8 @@ public:
 
 private:
     ByteContainer mData;
-    ByteContainerIterator mDataIterator;
+    // Position of the next value to be read. An iterator would not survive writing.
+    size_t mPosition = 0;
 };
 
 #include "Serializers/SerializeCustom.h"
-- 
2.43.0


From 72d1d7884c468b85224f6257fcaa76cc9f2fab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 31/64] fix: loading serialized data reads them from the
 beginning and reports a missing file

---
 src/GTMesh/BinarySerializer/BinarySerializer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index a71bce5..0a53523 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -131,6 +131,9 @@ public:
             mData.resize(file_size);
             file.read(reinterpret_cast<std::ios::char_type*>(mData.data()), file_size);
             file.close();
+            resetIterator();
+        } else {
+            throw std::runtime_error("unable to open file " + fileName);
         }
     }
 
-- 
2.43.0


From cb071a9d19784a41691f627632e799f7749b23aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 32/64] fix: deserialization of maps and sets replaces their
 content

---
 src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
index 884f637..0894c81 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
@@ -38,6 +38,7 @@ struct DeserializeAsociativeMap {
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
 
+        data.clear();
         for (decltype(data.size()) i = 0; i < size; i ++) {
             std::pair<typename T::key_type,typename T::mapped_type> val;
             BinarySerializer::readNext(dataIterator, val);
@@ -53,6 +54,7 @@ struct DeserializeAsociativeSet {
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
 
+        data.clear();
         for (decltype(data.size()) i = 0; i < size; i ++) {
             typename T::key_type val;
             BinarySerializer::readNext(dataIterator, val);
-- 
2.43.0


From bc0d5a52c40d880a922de062e94607f5a54db7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 33/64] fix: resizable containers without indices (std::list)
 can be deserialized

---
 src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
index 0894c81..a1a0806 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
@@ -15,7 +15,7 @@ struct SerializeIterable {
 
 
     template <typename T, typename ..., std::enable_if_t<IsIterable<T>::value, bool> = true>
-    static Impl::void_t<decltype(T::resize)>
+    static Impl::void_t<decltype(std::declval<T&>().resize(0))>
         deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data){
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
-- 
2.43.0


From 8e1ad84562a8a9446de202f25ef1dc1cb96c9d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:19 +0000
Subject: [PATCH 34/64] fix: bound traits apply to nested objects, pairs,
 tuples, lists, maps and sets in serialization

---
 .../BinarySerializer/BinarySerializer.h       | 24 ++++++++-
 .../Serializers/SerializeCustom.h             |  8 +--
 .../Serializers/SerializeIterable.h           | 24 ++++-----
 .../Serializers/SerializeTraitedClass.h       |  4 +-
 .../Serializers/SerializeTuple.h              | 50 +++++++++++++++++--
 5 files changed, 86 insertions(+), 24 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index 0a53523..e0f85a4 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -228,6 +228,24 @@ void BinarySerializer::addNext(std::vector<BinarySerializer::Byte> &binaryDataCo
                      SerializeTuple>::SelectedClass::serialize(binaryDataContainer, data);
 }
 
+/**
+ * @brief The SerializeWithoutTraits struct (de)serializes the values the bound
+ * traits do not apply to, e.g., numbers or strings.
+ */
+struct SerializeWithoutTraits {
+    template<typename T, typename ... TupleTraits>
+    static void serialize(BinarySerializer::ByteContainer &dataContainer, const T &data, const std::tuple<TupleTraits...>&)
+    {
+        BinarySerializer::addNext(dataContainer, data);
+    }
+
+    template<typename T, typename ... TupleTraits>
+    static void deserialize(BinarySerializer::ByteContainerIterator &dataIterator, T &data, const std::tuple<TupleTraits...>&)
+    {
+        BinarySerializer::readNext(dataIterator, data);
+    }
+};
+
 template<typename TupleType, typename Serializer>
 struct IsSerializableByWithTraits
 {};
@@ -253,7 +271,8 @@ void BinarySerializer::addNext(std::vector<BinarySerializer::Byte> &binaryDataCo
                                SerializeTraitedClass,
                                SerializeIterable,
                                SerializeIndexable,
-                               SerializeTuple>::SelectedClass::serialize(binaryDataContainer,
+                               SerializeTuple,
+                               SerializeWithoutTraits>::SelectedClass::serialize(binaryDataContainer,
                                                                          data,
                                                                          traits);
 }
@@ -307,7 +326,8 @@ void BinarySerializer::readNext(std::vector<Byte>::const_iterator& binaryDataIte
                                  DeserializeAsociativeSet,
                                  SerializeIterable,
                                  SerializeIndexable,
-                                 SerializeTuple>::SelectedClass::deserialize(binaryDataIterator,
+                                 SerializeTuple,
+                                 SerializeWithoutTraits>::SelectedClass::deserialize(binaryDataIterator,
                                                                              data,
                                                                              traits);
 }
diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeCustom.h b/src/GTMesh/BinarySerializer/Serializers/SerializeCustom.h
index cc9fc90..c1a1786 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeCustom.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeCustom.h
@@ -13,17 +13,17 @@ struct SerializeCustom {
     using IsBitviseDeserializable = Impl::void_t<decltype(BinaryDeserialize(std::declval<BinarySerializer::ByteContainerIterator&>(), std::declval<T&>()))>;
 
 
-    template <typename T>
+    template <typename T, typename ... TupleTraits>
     static
         IsBitviseSerializable<T>
-        serialize(BinarySerializer::ByteContainer& dataContainer, const T& data, ...) {
+        serialize(BinarySerializer::ByteContainer& dataContainer, const T& data, const TupleTraits& ...) {
         BinarySerialize(dataContainer, data);
     }
 
-    template <typename T>
+    template <typename T, typename ... TupleTraits>
     static
         IsBitviseDeserializable<T>
-        deserialize(BinarySerializer::ByteContainerIterator& dataIterator, T& data, ...) {
+        deserialize(BinarySerializer::ByteContainerIterator& dataIterator, T& data, const TupleTraits& ...) {
         BinaryDeserialize(dataIterator, data);
     }
 };
diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
index a1a0806..fece1f9 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
@@ -4,19 +4,19 @@
 #include "../BinarySerializer.h"
 
 struct SerializeIterable {
-    template <typename T, typename ..., std::enable_if_t<IsIterable<T>::value, bool> = true>
-    static void serialize(std::vector<unsigned char>& dataContainer, const T& data){
+    template <typename T, typename ... BoundTraits, std::enable_if_t<IsIterable<T>::value, bool> = true>
+    static void serialize(std::vector<unsigned char>& dataContainer, const T& data, const BoundTraits&... traits){
         BinarySerializer::addNext(dataContainer, data.size());
         for (const auto& val : data) {
-            BinarySerializer::addNext(dataContainer, val);
+            BinarySerializer::addNext(dataContainer, val, traits...);
         }
     }
 
 
 
-    template <typename T, typename ..., std::enable_if_t<IsIterable<T>::value, bool> = true>
+    template <typename T, typename ... BoundTraits, std::enable_if_t<IsIterable<T>::value, bool> = true>
     static Impl::void_t<decltype(std::declval<T&>().resize(0))>
-        deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data){
+        deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data, const BoundTraits&... traits){
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
 
@@ -25,39 +25,39 @@ struct SerializeIterable {
         }
 
         for (auto & val : data) {
-            BinarySerializer::readNext(dataIterator, val);
+            BinarySerializer::readNext(dataIterator, val, traits...);
         }
     }
 
 };
 
 struct DeserializeAsociativeMap {
-    template <typename T, typename ..., std::enable_if_t<IsIterable<T>::value, bool> = true>
+    template <typename T, typename ... BoundTraits, std::enable_if_t<IsIterable<T>::value, bool> = true>
     static Impl::void_t<typename T::key_type,typename T::mapped_type>
-        deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data){
+        deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data, const BoundTraits&... traits){
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
 
         data.clear();
         for (decltype(data.size()) i = 0; i < size; i ++) {
             std::pair<typename T::key_type,typename T::mapped_type> val;
-            BinarySerializer::readNext(dataIterator, val);
+            BinarySerializer::readNext(dataIterator, val, traits...);
             data.insert(val);
         }
     }
 };
 
 struct DeserializeAsociativeSet {
-    template <typename T, typename ..., std::enable_if_t<IsIterable<T>::value, bool> = true>
+    template <typename T, typename ... BoundTraits, std::enable_if_t<IsIterable<T>::value, bool> = true>
     static Impl::void_t<typename T::key_type>
-    deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data){
+    deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data, const BoundTraits&... traits){
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
 
         data.clear();
         for (decltype(data.size()) i = 0; i < size; i ++) {
             typename T::key_type val;
-            BinarySerializer::readNext(dataIterator, val);
+            BinarySerializer::readNext(dataIterator, val, traits...);
             data.insert(val);
         }
     }
diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeTraitedClass.h b/src/GTMesh/BinarySerializer/Serializers/SerializeTraitedClass.h
index c7b1bc9..0a8f696 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeTraitedClass.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeTraitedClass.h
@@ -25,7 +25,7 @@ protected:
                          const TraitsType &traits,
                          const std::tuple<TupleTraits...>& tupleTraits)
         {
-            BinarySerializer::addNext(container, traits.template getValue<Index>(var));
+            BinarySerializer::addNext(container, traits.template getValue<Index>(var), tupleTraits);
         }
     };
 
@@ -45,7 +45,7 @@ protected:
                          const TraitsType &traits,
                          const std::tuple<TupleTraits...>& tupleTraits)
         {
-            BinarySerializer::readNext(it, traits.template getAttr<Index>(var));
+            BinarySerializer::readNext(it, traits.template getAttr<Index>(var), tupleTraits);
         }
     };
 
diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeTuple.h b/src/GTMesh/BinarySerializer/Serializers/SerializeTuple.h
index 1b44c63..3413197 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeTuple.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeTuple.h
@@ -10,44 +10,86 @@ struct SerializeTuple {
      * @brief Python-like print of dictionary pair of key and value.
      */
     template<typename T1, typename T2>
-    static void serialize(BinarySerializer::ByteContainer& dataContainer, const std::pair<T1,T2>& data, ...)
+    static void serialize(BinarySerializer::ByteContainer& dataContainer, const std::pair<T1,T2>& data)
     {
         BinarySerializer::addNext(dataContainer, data.first);
         BinarySerializer::addNext(dataContainer, data.second);
     }
 
+    template<typename T1, typename T2, typename ... TupleTraits>
+    static void serialize(BinarySerializer::ByteContainer& dataContainer, const std::pair<T1,T2>& data,
+                          const std::tuple<TupleTraits...>& traits)
+    {
+        BinarySerializer::addNext(dataContainer, data.first, traits);
+        BinarySerializer::addNext(dataContainer, data.second, traits);
+    }
+
     template<typename T1, typename T2>
-    static void deserialize(BinarySerializer::ByteContainerIterator& dataIterator, std::pair<T1,T2>& data, ...)
+    static void deserialize(BinarySerializer::ByteContainerIterator& dataIterator, std::pair<T1,T2>& data)
     {
         BinarySerializer::readNext(dataIterator, data.first);
         BinarySerializer::readNext(dataIterator, data.second);
     }
 
+    template<typename T1, typename T2, typename ... TupleTraits>
+    static void deserialize(BinarySerializer::ByteContainerIterator& dataIterator, std::pair<T1,T2>& data,
+                            const std::tuple<TupleTraits...>& traits)
+    {
+        BinarySerializer::readNext(dataIterator, data.first, traits);
+        BinarySerializer::readNext(dataIterator, data.second, traits);
+    }
+
 
     struct SerializeTupleHelper{
         template <unsigned int Index, typename ... TupleTypes>
         static void exec(BinarySerializer::ByteContainer& dataContainer, const std::tuple<TupleTypes...>& data) {
             BinarySerializer::addNext(dataContainer, std::get<Index>(data));
         }
+
+        template <unsigned int Index, typename ... TupleTypes, typename ... TupleTraits>
+        static void exec(BinarySerializer::ByteContainer& dataContainer, const std::tuple<TupleTypes...>& data,
+                         const std::tuple<TupleTraits...>& traits) {
+            BinarySerializer::addNext(dataContainer, std::get<Index>(data), traits);
+        }
     };
 
     template<typename ... TupleTypes>
-    static void serialize(BinarySerializer::ByteContainer& dataContainer, const std::tuple<TupleTypes...>& data, ...)
+    static void serialize(BinarySerializer::ByteContainer& dataContainer, const std::tuple<TupleTypes...>& data)
     {
         constexprFor<SerializeTupleHelper, sizeof... (TupleTypes)>(dataContainer, data);
     }
 
+    template<typename ... TupleTypes, typename ... TupleTraits>
+    static void serialize(BinarySerializer::ByteContainer& dataContainer, const std::tuple<TupleTypes...>& data,
+                          const std::tuple<TupleTraits...>& traits)
+    {
+        constexprFor<SerializeTupleHelper, sizeof... (TupleTypes)>(dataContainer, data, traits);
+    }
+
     struct DeserializeTupleHelper{
         template <unsigned int Index, typename ... TupleTypes>
         static void exec(BinarySerializer::ByteContainerIterator& dataIterator, std::tuple<TupleTypes...>& data) {
             BinarySerializer::readNext(dataIterator, std::get<Index>(data));
         }
+
+        template <unsigned int Index, typename ... TupleTypes, typename ... TupleTraits>
+        static void exec(BinarySerializer::ByteContainerIterator& dataIterator, std::tuple<TupleTypes...>& data,
+                         const std::tuple<TupleTraits...>& traits) {
+            BinarySerializer::readNext(dataIterator, std::get<Index>(data), traits);
+        }
     };
 
     template<typename ... TupleTypes>
-    static void deserialize(BinarySerializer::ByteContainerIterator& dataIterator, std::tuple<TupleTypes...>& data, ...)
+    static void deserialize(BinarySerializer::ByteContainerIterator& dataIterator, std::tuple<TupleTypes...>& data)
     {
         constexprFor<DeserializeTupleHelper, sizeof... (TupleTypes)>(dataIterator, data);
     }
+
+    template<typename ... TupleTypes, typename ... TupleTraits>
+    static void deserialize(BinarySerializer::ByteContainerIterator& dataIterator, std::tuple<TupleTypes...>& data,
+                            const std::tuple<TupleTraits...>& traits)
+    {
+        constexprFor<DeserializeTupleHelper, sizeof... (TupleTypes)>(dataIterator, data, traits);
+    }
 };
 #endif // SERIALIZETUPLE_H
-- 
2.43.0


From 26a8a27af83329c23c01d619c084d9e2409fcebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:58 +0000
Subject: [PATCH 35/64] fix: empty containers are serialized without taking the
 address of their first element

---
 src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h b/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h
index dfd96cd..d0eccdb 100644
--- a/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h
+++ b/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h
@@ -37,9 +37,9 @@ struct CompactContainer<
     static void resize(T & /*val*/, size_type /*new_size*/)
     {}
 
-    static const value_type *data(const T &val) { return &val[0]; }
+    static const value_type *data(const T &val) { return val.data(); }
 
-    static value_type *data(T &val) { return &val[0]; }
+    static value_type *data(T &val) { return const_cast<value_type *>(val.data()); }
 };
 
 /**
-- 
2.43.0


From d0198489a0f0f306847e5a4c9368a858da7b1780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 36/64] fix: subtracting a temporary traited object returns the
 difference

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index eb63aad..bb8ab1d 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -206,7 +206,7 @@ typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator-(const TraitT& op1, TraitT&& op2) noexcept {
 
     TraitsBinaryExpressionProcesor<BinaryMinus>::evaluate(op2, op1, op2);
-
+    return op2;
 }
 
 
-- 
2.43.0


From 0a659c90baf8a2d77d63cd2d01b6d311b4a49dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 37/64] fix: two temporary traited objects can be multiplied

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index bb8ab1d..656e920 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -323,6 +323,12 @@ operator*(TraitT&& op1, const TraitT& op2) noexcept {
     return operator*=(op1, op2);
 }
 
+template <typename TraitT>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+operator*(TraitT&& op1, TraitT&& op2) noexcept {
+    return operator*=(op1, op2);
+}
+
 
 ///
 /// Division of traited class with a real number
-- 
2.43.0


From 061947bcf1f99a999ecf5ce73902457df46e03fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 38/64] fix: unary minus works for traited classes with vector
 attributes

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 656e920..cc47b93 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -697,9 +697,9 @@ cbrt(const TraitT& op1) noexcept {
 template< typename T1 >
 struct UnaryMinus
 {
-   static auto evaluate( const T1& a ) -> decltype( -1 * a )
+   static auto evaluate( const T1& a ) -> decltype( a * -1 )
    {
-      return -a;
+      return a * -1;
    }
 };
 
-- 
2.43.0


From 3d618a001511c7d5b6627fccb17f40e3c7138e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 39/64] fix: absolute value of traited classes does not
 truncate to integers or recurse endlessly

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h  | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index cc47b93..f9e326e 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -726,6 +726,26 @@ operator-(TraitT&& op1) noexcept {
 /// Absolute value
 ///
 
+template <typename T>
+typename std::enable_if<
+    !std::is_class<T>::value && !std::is_unsigned<T>::value,
+    T
+>::type
+abs(const T& arg) noexcept {
+
+    return  std::abs(arg);
+}
+
+template <typename T>
+typename std::enable_if<
+    std::is_unsigned<T>::value,
+    T
+>::type
+abs(const T& arg) noexcept {
+
+    return  arg;
+}
+
 template< typename T1 >
 struct Abs
 {
@@ -759,16 +779,6 @@ abs(TraitT&& op1) noexcept {
 
 
 
-template <typename T>
-typename std::enable_if<
-    !std::is_class<T>::value,
-    T
->::type
-abs(const T& arg) noexcept {
-
-    return  abs(arg);
-}
-
 template <typename T>
 typename std::enable_if<
     IsIndexable<T>::value,
-- 
2.43.0


From 4ad84e20abd52ed90fa84e89b921f317c94a4e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 40/64] fix: max, min and sum of vectors of integers compile

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index f9e326e..87a9e19 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -928,7 +928,7 @@ public:
 
             return  res;
         }
-        return 0.0;
+        return decltype (evaluate(array[0]))();
     }
 
 
-- 
2.43.0


From 4a5ec0c7638e660e3793c3f658c817cf8aa0e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 41/64] fix: a number raised to a traited object is raised to
 each attribute

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h  | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 87a9e19..0036cbe 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -367,6 +367,19 @@ struct Pow
 
 
 
+/**
+ * @brief Power with swapped arguments, i.e., b to the power of a.
+ */
+template< typename T1, typename T2 >
+struct PowOf
+{
+   static auto evaluate( const T1& a, const T2& b ) -> decltype( pow(b,a) )
+   {
+      return pow(b,a);
+   }
+};
+
+
 ///
 /// Power of traited class to a real number
 ///
@@ -393,7 +406,10 @@ pow(const TraitT& op1, const Real& op2) noexcept {
 template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 pow(const Real& op1, const TraitT& op2) noexcept {
-    return pow(op2, op1);
+
+    TraitT res;
+    TraitsBinaryExpressionProcesor<PowOf>::evaluate(res, op2, op1);
+    return res;
 }
 
 
@@ -401,7 +417,9 @@ pow(const Real& op1, const TraitT& op2) noexcept {
 template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 pow(const Real& op1, TraitT&& op2) noexcept {
-    return pow(op2, op1);
+
+    TraitsBinaryExpressionProcesor<PowOf>::evaluate(op2, op2, op1);
+    return op2;
 }
 
 
-- 
2.43.0


From 9ea6c87124fadccbdd6c90ae0e9e7a3c1654553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 42/64] fix: traited objects are divided attribute by attribute

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h      | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 0036cbe..bb4208b 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -333,12 +333,22 @@ operator*(TraitT&& op1, TraitT&& op2) noexcept {
 ///
 /// Division of traited class with a real number
 ///
+template< typename T1, typename T2 >
+struct BinarySlash
+{
+   static auto evaluate( const T1& a, const T2& b ) -> decltype( a / b )
+   {
+      return a / b;
+   }
+};
 
 template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator/(const TraitT& op1, const Real& op2) noexcept {
 
-    return (1.0/op2) * op1;
+    TraitT res;
+    TraitsBinaryExpressionProcesor<BinarySlash>::evaluate(res, op1, op2);
+    return res;
 }
 
 
@@ -346,7 +356,8 @@ template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator/(TraitT&& op1, const Real& op2) noexcept {
 
-    return (1.0/op2) * op1;
+    TraitsBinaryExpressionProcesor<BinarySlash>::evaluate(op1, op1, op2);
+    return op1;
 }
 
 
-- 
2.43.0


From eb47187ba77b4d660877474fb6a8cbd06422411b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:08 +0000
Subject: [PATCH 43/64] fix: setters given as functions can set the value of an
 object given by a pointer

---
 src/GTMesh/Traits/MemberAccess/GetSetAccess.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/Traits/MemberAccess/GetSetAccess.h b/src/GTMesh/Traits/MemberAccess/GetSetAccess.h
index 8e2bb37..17a1495 100644
--- a/src/GTMesh/Traits/MemberAccess/GetSetAccess.h
+++ b/src/GTMesh/Traits/MemberAccess/GetSetAccess.h
@@ -150,7 +150,7 @@ private:
 public:
     constexpr SetAccess(const _setterType &s) : set(s) {}
 
-    inline void setValue(_typeClass *c, const _typeValue &val) const { set(c, val); }
+    inline void setValue(_typeClass *c, const _typeValue &val) const { set(*c, val); }
 
     inline void setValue(_typeClass &c, const _typeValue &val) const { set(c, val); }
 };
@@ -172,11 +172,11 @@ private:
 public:
     constexpr SetAccess(const _setterType &s) : set(s) {}
 
-    inline void setValue(_typeClass *c, const _typeValue &val) const { set(c) = val; }
+    inline void setValue(_typeClass *c, const _typeValue &val) const { set(*c) = val; }
 
     inline void setValue(_typeClass &c, const _typeValue &val) const { set(c) = val; }
 
-    inline auto &getAttr(_typeClass *c) const { return set(c); }
+    inline auto &getAttr(_typeClass *c) const { return set(*c); }
 
     inline auto &getAttr(_typeClass &c) const { return set(c); }
 };
-- 
2.43.0


From 46e04f108097fa009489fc10ef16fde7bbb476ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 44/64] fix: a tuple exported to a file or string stream is
 written to the stream

---
 src/GTMesh/Debug/VariableExport.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Debug/VariableExport.h b/src/GTMesh/Debug/VariableExport.h
index ddac070..3cc06fd 100644
--- a/src/GTMesh/Debug/VariableExport.h
+++ b/src/GTMesh/Debug/VariableExport.h
@@ -27,7 +27,7 @@ struct VariableExport {
     static void exportVariable(const T& var);
 
 
-    template <typename T, typename ... TraitsTypes>
+    template <typename T, typename ... TraitsTypes, std::enable_if_t<!std::is_base_of<std::ostream, T>::value, bool> = true>
     static void exportVariable(const T& var, const std::tuple<TraitsTypes...>&);
 
 };
@@ -135,7 +135,7 @@ void VariableExport::exportVariable(const T &var)
 }
 
 
-template<typename T, typename ... TraitsTypes>
+template<typename T, typename ... TraitsTypes, std::enable_if_t<!std::is_base_of<std::ostream, T>::value, bool>>
 void VariableExport::exportVariable(const T &var, const std::tuple<TraitsTypes...>& traitsTuple)
 {
     SelectPrinterTraitsTuple< T, std::tuple<TraitsTypes...>,
-- 
2.43.0


From 48dea70d5e74cfc87a1d46109263e326fbefbc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 45/64] fix: unsigned numbers are printed without a trailing
 letter

---
 src/GTMesh/Debug/Printers/PrintExportable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/Printers/PrintExportable.h b/src/GTMesh/Debug/Printers/PrintExportable.h
index 941086e..b3c0644 100644
--- a/src/GTMesh/Debug/Printers/PrintExportable.h
+++ b/src/GTMesh/Debug/Printers/PrintExportable.h
@@ -42,7 +42,7 @@ struct PrintExportable {
 
     static void print(const unsigned int& d, ...)
     {
-        printf("%ud", d);
+        printf("%u", d);
     }
 
 
-- 
2.43.0


From b0da167771c07e25a6da9683dfa4bcc0361f8969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 46/64] fix: numbers of type long are printable by the stdio
 export

---
 src/GTMesh/Debug/Printers/PrintExportable.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/GTMesh/Debug/Printers/PrintExportable.h b/src/GTMesh/Debug/Printers/PrintExportable.h
index b3c0644..392e48d 100644
--- a/src/GTMesh/Debug/Printers/PrintExportable.h
+++ b/src/GTMesh/Debug/Printers/PrintExportable.h
@@ -46,6 +46,16 @@ struct PrintExportable {
     }
 
 
+    static void print(const long& d, ...)
+    {
+        printf("%ld", d);
+    }
+
+    static void print(const unsigned long& d, ...)
+    {
+        printf("%lu", d);
+    }
+
     static void print(const long long& d, ...)
     {
         printf("%lld", d);
-- 
2.43.0


From fda02e682c9fe8354c88437beb514fe199d7ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 47/64] fix: string literals are exported as text

---
 src/GTMesh/Debug/Printers/PrintText.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/Debug/Printers/PrintText.h b/src/GTMesh/Debug/Printers/PrintText.h
index f143369..162e922 100644
--- a/src/GTMesh/Debug/Printers/PrintText.h
+++ b/src/GTMesh/Debug/Printers/PrintText.h
@@ -8,6 +8,7 @@ struct PrintText {
     using isTextType = std::enable_if_t < std::is_same<T, std::string>::value ||
                                           std::is_same<T, const char*>::value ||
                                           std::is_same<T, char*>::value ||
+                                          std::is_same<std::remove_cv_t<std::remove_extent_t<T>>, char>::value ||
                                           std::is_same<T, char>::value,
                                           bool >;
 
-- 
2.43.0


From a5d06c0b7a62821932f5143cfeb180d901b4a6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:07 +0000
Subject: [PATCH 48/64] fix: export of raw bytes leaves the formatting of the
 stream as it was

---
 src/GTMesh/Debug/Printers/PrintAny.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/Printers/PrintAny.h b/src/GTMesh/Debug/Printers/PrintAny.h
index 25be8e9..bb5f529 100644
--- a/src/GTMesh/Debug/Printers/PrintAny.h
+++ b/src/GTMesh/Debug/Printers/PrintAny.h
@@ -7,6 +7,8 @@ struct PrintAny {
     template <typename T>
     static void print(std::ostream& ost, const T& var, ...) {
         ost << typeid (T).name() << "(";
+        const auto flags = ost.flags();
+        const auto fill = ost.fill();
         ost << std::hex;
         for (char* byte = (char*)&var; byte < (char*)&var + sizeof (T); byte++) {
             ost << std::setfill('0') << std::setw(2) << ((int)(*byte) & 0xff);
@@ -14,7 +16,8 @@ struct PrintAny {
                 ost << ' ';
             }
         }
-        ost << std::dec;
+        ost.flags(flags);
+        ost.fill(fill);
         ost << ")";
     }
 
-- 
2.43.0


From 37520581f21ebcb6da47117e0abb391a86b5c04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:07 +0000
Subject: [PATCH 49/64] fix: quotation marks and backslashes in exported text
 are escaped

---
 src/GTMesh/Debug/Printers/PrintText.h | 33 +++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/Debug/Printers/PrintText.h b/src/GTMesh/Debug/Printers/PrintText.h
index 162e922..5bdcb25 100644
--- a/src/GTMesh/Debug/Printers/PrintText.h
+++ b/src/GTMesh/Debug/Printers/PrintText.h
@@ -1,6 +1,7 @@
 #ifndef PRINTTEXT_H
 #define PRINTTEXT_H
 #include <GTMesh/Traits/CustomTypeTraits.h>
+#include <string>
 
 struct PrintText {
 
@@ -15,24 +16,48 @@ struct PrintText {
     template< typename TextType,
               isTextType<TextType> dummy = true >
     static void print(std::ostream& ost, const TextType& str, ...) {
-        ost << '"' << str << '"';
+        ost << '"' << escape(str) << '"';
     }
 
     static void print(const std::string& str, ...)
     {
-        printf("\"%s\"", str.c_str());
+        printf("\"%s\"", escape(str).c_str());
     }
 
 
     static void print(const char* str, ...)
     {
-        printf("\"%s\"", str);
+        printf("\"%s\"", escape(str).c_str());
     }
 
 
     static void print(const char str, ...)
     {
-        printf("\"%c\"", str);
+        printf("\"%s\"", escape(str).c_str());
+    }
+
+private:
+    /// Quotation marks and backslashes inside a text are preceded by a backslash.
+    static std::string escape(const std::string& str)
+    {
+        std::string res;
+        for (char c : str) {
+            if (c == '"' || c == '\\') {
+                res += '\\';
+            }
+            res += c;
+        }
+        return res;
+    }
+
+    static std::string escape(const char* str)
+    {
+        return escape(std::string(str));
+    }
+
+    static std::string escape(const char c)
+    {
+        return escape(std::string(1, c));
     }
 
 };
-- 
2.43.0


From a6f6e65e7b6d0f48a74d065c6568014dd7fe80d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:07 +0000
Subject: [PATCH 50/64] fix: backslashes at the beginning of a file name are
 escaped in the JSON log

---
 src/GTMesh/Debug/JSONLogger.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/JSONLogger.h b/src/GTMesh/Debug/JSONLogger.h
index 71c3ff8..1bb6028 100644
--- a/src/GTMesh/Debug/JSONLogger.h
+++ b/src/GTMesh/Debug/JSONLogger.h
@@ -152,8 +152,9 @@ public:
     std::string doubleBackSlash(const char * str){
         std::string res = str;
         size_t pos = 0;
-        while((pos = res.find("\\", pos + 2)) != res.npos){
+        while((pos = res.find("\\", pos)) != res.npos){
             res.replace(pos, 1, "\\\\");
+            pos += 2;
         }
         return res;
     }
-- 
2.43.0


From 95636df47ab7c9a8c6d9a35bf38bfe04cf6809c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:07 +0000
Subject: [PATCH 51/64] fix: a log is finished once, when it is destroyed or
 replaced by another one

---
 src/GTMesh/Debug/HTMLLogger.h | 6 ++----
 src/GTMesh/Debug/JSONLogger.h | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index dc020f0..6536713 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -43,10 +43,7 @@ public:
      * @param fileName
      */
     void create(const char* fileName){
-        if (logFile){
-            logFile->close();
-            delete logFile;
-        }
+        destroy();
         logFile = new std::ofstream(fileName);
 
 
@@ -58,6 +55,7 @@ public:
             writeEndScritpt();
             logFile->close();
             delete logFile;
+            logFile = nullptr;
         }
     }
 
diff --git a/src/GTMesh/Debug/JSONLogger.h b/src/GTMesh/Debug/JSONLogger.h
index 1bb6028..8e3eba3 100644
--- a/src/GTMesh/Debug/JSONLogger.h
+++ b/src/GTMesh/Debug/JSONLogger.h
@@ -41,10 +41,7 @@ public:
      * @param fileName
      */
     void create(const char* fileName){
-        if (logFile){
-            logFile->close();
-            delete logFile;
-        }
+        destroy();
         firstWrite = true;
         logFile = new std::ofstream(fileName);
         (*logFile) << "{\n\"logs\":[\n";
@@ -57,6 +54,7 @@ public:
 
             logFile->close();
             delete logFile;
+            logFile = nullptr;
         }
     }
 
-- 
2.43.0


From 9ad3d9e788aa0dcb0bde5e4bd1ff49ab5d81aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:07 +0000
Subject: [PATCH 52/64] fix: reset of the console logger restores the default
 indentation

---
 src/GTMesh/Debug/ConsoleLogger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/ConsoleLogger.h b/src/GTMesh/Debug/ConsoleLogger.h
index da7eecc..4763cf8 100644
--- a/src/GTMesh/Debug/ConsoleLogger.h
+++ b/src/GTMesh/Debug/ConsoleLogger.h
@@ -52,7 +52,7 @@ public:
         mOnlyFilename = false; //!< If true then the filename is exported without its path.
         mPrintFunction = true; //!< If true then the name of the function the export is called from is printed.
         mPrintAggregated = true; //!< Prints the information about the origin of the message only once.
-        mIdentation = std::string("...     "); //!< The identation of the single exports when PrintAggregated is true.
+        mIdentation = std::string("||     "); //!< The identation of the single exports when PrintAggregated is true.
     }
 public:
 
-- 
2.43.0


From e20a64631657097df13117eab90c4c0bb6b09c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:07 +0000
Subject: [PATCH 53/64] fix: several messages can be written to stdout at once

---
 src/GTMesh/Debug/ConsoleLogger.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Debug/ConsoleLogger.h b/src/GTMesh/Debug/ConsoleLogger.h
index 4763cf8..0609dc1 100644
--- a/src/GTMesh/Debug/ConsoleLogger.h
+++ b/src/GTMesh/Debug/ConsoleLogger.h
@@ -197,8 +197,8 @@ public:
 
     template<typename MSGTYPE, typename... MSGTYPES>
     static void writeMessageC(const char* prefix, int line, const char* funcName, const char* sourceFile, const MSGTYPE& message, const MSGTYPES&... rest) {
-        writeMessageC(prefix, funcName, line, sourceFile, message);
-        writeMessageC(prefix, funcName, line, sourceFile, rest...);
+        writeMessageC(prefix, line, funcName, sourceFile, message);
+        writeMessageC(prefix, line, funcName, sourceFile, rest...);
     }
 
 
-- 
2.43.0


From adf61c2964163823c487013311d7401491c9aba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:07 +0000
Subject: [PATCH 54/64] fix: DBGVAR_STDIO prints the file and the function at
 their places

---
 src/GTMesh/Debug/Debug.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/Debug.h b/src/GTMesh/Debug/Debug.h
index a843112..682cd3b 100644
--- a/src/GTMesh/Debug/Debug.h
+++ b/src/GTMesh/Debug/Debug.h
@@ -33,7 +33,7 @@ namespace dbg {
 #define DBGVAR(...) dbg::getDebugConsoleLogger().writeVariable(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
 #define DBGVARCOND(condition, ...) if(condition) DBGVAR(__VA_ARGS__)
 
-#define DBGVAR_STDIO(...) ConsoleLogger::writeVarC(__LINE__, __FILE__, __func__, FOR_EACH(STRVAR, __VA_ARGS__))
+#define DBGVAR_STDIO(...) ConsoleLogger::writeVarC(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
 #define DBGVARCOND_STDIO(condition, ...) if(condition) DBGVAR_STDIO(__VA_ARGS__)
 
 #define DBGMSG(...) dbg::getDebugConsoleLogger().writeMessage("++", __LINE__, __func__, __FILE__, __VA_ARGS__)
-- 
2.43.0


From 21c8c111486bada142c9ab9939b72c6e7898206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 55/64] fix: apostrophes and backslashes in names of variables
 are escaped in the HTML log

---
 src/GTMesh/Debug/HTMLLogger.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index 6536713..7151344 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -90,7 +90,7 @@ public:
         // create file if not logFile is nullptr
         if (!logFile) create(logFileName.c_str());
 
-        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << name << "', ";
+        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << escape(name) << "', ";
         VariableExport::exportVariable(*logFile,value);
         (*logFile) << "],\n";
         writeVar(line, cppFile, rest...);
@@ -103,7 +103,7 @@ public:
         // create file if not logFile is nullptr
         if (!logFile) create(logFileName.c_str());
 
-        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << name << "', ";
+        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << escape(name) << "', ";
         VariableExport::exportVariable(*logFile,value);
         (*logFile) << "],\n";
         groupIndex++;
@@ -143,6 +143,19 @@ public:
         writeVar(line, file, name, value);
     }
 
+private:
+    /// Apostrophes and backslashes would terminate or change the text in the script.
+    static std::string escape(const std::string& str){
+        std::string res;
+        for (char c : str){
+            if (c == '\'' || c == '\\'){
+                res += '\\';
+            }
+            res += c;
+        }
+        return res;
+    }
+
 };
 
 
-- 
2.43.0


From c5eee06025474edd51bccbaecc431f46157bb811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:09 +0000
Subject: [PATCH 56/64] fix: traits bound to an exported object are not passed
 through ellipses, which clang refuses

---
 src/GTMesh/Debug/Printers/PrintAny.h        |  8 ++---
 src/GTMesh/Debug/Printers/PrintCustom.h     |  8 ++---
 src/GTMesh/Debug/Printers/PrintExportable.h | 37 +++++++++++++--------
 src/GTMesh/Debug/Printers/PrintText.h       | 12 ++++---
 4 files changed, 40 insertions(+), 25 deletions(-)

diff --git a/src/GTMesh/Debug/Printers/PrintAny.h b/src/GTMesh/Debug/Printers/PrintAny.h
index bb5f529..741234c 100644
--- a/src/GTMesh/Debug/Printers/PrintAny.h
+++ b/src/GTMesh/Debug/Printers/PrintAny.h
@@ -4,8 +4,8 @@
 #include <iomanip>
 struct PrintAny {
 
-    template <typename T>
-    static void print(std::ostream& ost, const T& var, ...) {
+    template <typename T, typename... Rest>
+    static void print(std::ostream& ost, const T& var, const Rest& ...) {
         ost << typeid (T).name() << "(";
         const auto flags = ost.flags();
         const auto fill = ost.fill();
@@ -21,8 +21,8 @@ struct PrintAny {
         ost << ")";
     }
 
-    template <typename T>
-    static void print(const T& var, ...) {
+    template <typename T, typename... Rest>
+    static void print(const T& var, const Rest& ...) {
         for (char* byte = (char*)&var; byte < (char*)&var + sizeof (T); byte++) {
             printf("%02X",((int)(*byte) & 0xff));
             if (byte < (char*)&var + sizeof (T) - 1) {
diff --git a/src/GTMesh/Debug/Printers/PrintCustom.h b/src/GTMesh/Debug/Printers/PrintCustom.h
index febbd17..bd9ff9f 100644
--- a/src/GTMesh/Debug/Printers/PrintCustom.h
+++ b/src/GTMesh/Debug/Printers/PrintCustom.h
@@ -17,17 +17,17 @@ struct PrintCustom {
     using IsPrintableToStdio = Impl::void_t<decltype(PrintTo(std::declval<const T&>()))>;
 
 
-    template <typename T>
+    template <typename T, typename... Rest>
     static
     IsPrintableToStream<T>
-    print(std::ostream& ost, const T& var, ...) {
+    print(std::ostream& ost, const T& var, const Rest& ...) {
         PrintTo(var, ost);
     }
 
-    template <typename T>
+    template <typename T, typename... Rest>
     static
     IsPrintableToStdio<T>
-    print(const T& var, ...) {
+    print(const T& var, const Rest& ...) {
         PrintTo(var);
     }
 };
diff --git a/src/GTMesh/Debug/Printers/PrintExportable.h b/src/GTMesh/Debug/Printers/PrintExportable.h
index 392e48d..8749d2b 100644
--- a/src/GTMesh/Debug/Printers/PrintExportable.h
+++ b/src/GTMesh/Debug/Printers/PrintExportable.h
@@ -10,63 +10,74 @@ struct PrintExportable {
      * type T has overaloaded the operator<<
      * for ostream.
      */
-    template <typename T, std::enable_if_t<IsExportable<T>::value, bool> = true>
-    static void print(std::ostream& ost, const T& var, ...) {
+    template <typename T, typename... Rest, std::enable_if_t<IsExportable<T>::value, bool> = true>
+    static void print(std::ostream& ost, const T& var, const Rest& ...) {
         ost << var;
     }
 
-    static void print(std::ostream& ost, const bool& var, ...) {
+    template <typename... Rest>
+    static void print(std::ostream& ost, const bool& var, const Rest& ...) {
         ost << (var == true ? "true" : "false");
     }
 
-    static void print(const double& d, ...)
+    template <typename... Rest>
+    static void print(const double& d, const Rest& ...)
     {
         printf("%g", d);
     }
 
-    static void print(const long double& d, ...)
+    template <typename... Rest>
+    static void print(const long double& d, const Rest& ...)
     {
         printf("%Lg", d);
     }
 
-    static void print(const int& d, ...)
+    template <typename... Rest>
+    static void print(const int& d, const Rest& ...)
     {
         printf("%d", d);
     }
 
 
-    static void print(const short& d, ...)
+    template <typename... Rest>
+    static void print(const short& d, const Rest& ...)
     {
         printf("%hd", d);
     }
 
-    static void print(const unsigned int& d, ...)
+    template <typename... Rest>
+    static void print(const unsigned int& d, const Rest& ...)
     {
         printf("%u", d);
     }
 
 
-    static void print(const long& d, ...)
+    template <typename... Rest>
+    static void print(const long& d, const Rest& ...)
     {
         printf("%ld", d);
     }
 
-    static void print(const unsigned long& d, ...)
+    template <typename... Rest>
+    static void print(const unsigned long& d, const Rest& ...)
     {
         printf("%lu", d);
     }
 
-    static void print(const long long& d, ...)
+    template <typename... Rest>
+    static void print(const long long& d, const Rest& ...)
     {
         printf("%lld", d);
     }
 
-    static void print(const unsigned long long& d, ...)
+    template <typename... Rest>
+    static void print(const unsigned long long& d, const Rest& ...)
     {
         printf("%llu", d);
     }
 
-    static void print(const bool& b, ...)
+    template <typename... Rest>
+    static void print(const bool& b, const Rest& ...)
     {
         printf("%s", (b == true ? "true" : "false"));
     }
diff --git a/src/GTMesh/Debug/Printers/PrintText.h b/src/GTMesh/Debug/Printers/PrintText.h
index 5bdcb25..5a8ad58 100644
--- a/src/GTMesh/Debug/Printers/PrintText.h
+++ b/src/GTMesh/Debug/Printers/PrintText.h
@@ -14,24 +14,28 @@ struct PrintText {
                                           bool >;
 
     template< typename TextType,
+              typename... Rest,
               isTextType<TextType> dummy = true >
-    static void print(std::ostream& ost, const TextType& str, ...) {
+    static void print(std::ostream& ost, const TextType& str, const Rest& ...) {
         ost << '"' << escape(str) << '"';
     }
 
-    static void print(const std::string& str, ...)
+    template <typename... Rest>
+    static void print(const std::string& str, const Rest& ...)
     {
         printf("\"%s\"", escape(str).c_str());
     }
 
 
-    static void print(const char* str, ...)
+    template <typename... Rest>
+    static void print(const char* str, const Rest& ...)
     {
         printf("\"%s\"", escape(str).c_str());
     }
 
 
-    static void print(const char str, ...)
+    template <typename... Rest>
+    static void print(const char str, const Rest& ...)
     {
         printf("\"%s\"", escape(str).c_str());
     }
-- 
2.43.0


From f64774885f40e2c021fc04bfd91ce440be6d28d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:37 +0000
Subject: [PATCH 57/64] fix: subelements at positions above 255 can be removed

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 4a4dc5a..bfa8d6f 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -93,9 +93,9 @@ public:
         addSubelement(index);
     }
 
-    void removeSubelement(unsigned char atIndex){
+    void removeSubelement(size_t atIndex){
         if (atIndex < numberOfElements){
-            for(unsigned char i = atIndex; i < numberOfElements - 1; i++){
+            for(size_t i = atIndex; i + 1 < numberOfElements; i++){
                 this->at(i) = this->at(i+1);
             }
             this->at(numberOfElements - 1) = INVALID_INDEX(IndexType);
@@ -134,7 +134,7 @@ public:
         this->push_back(IndexType{index});
     }
 
-    void removeSubelement(unsigned char atIndex){
+    void removeSubelement(size_t atIndex){
         this->erase(this->begin() + atIndex);
     }
 };
-- 
2.43.0


From 979e5ee489f4ed8a73fe85f1aab9cb0be6f2b1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:06 +0000
Subject: [PATCH 58/64] fix: containers in the manner of TNL can be
 deserialized

---
 .../BinarySerializer/Serializers/SerializeIndexable.h     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
index 101834f..875fa8c 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
@@ -31,8 +31,8 @@ struct SerializeIndexable {
 
     template <typename T, typename ..., std::enable_if_t<Interface::Indexable<T>::value, bool> = true>
     static void deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data){
-        using size_type = decltype(data.size());
-        size_type size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
+        using size_type = std::decay_t<typename Interface::Indexable<T>::sizeType>;
+        size_type size = BinarySerializer::readNext<size_type>(dataIterator);
 
         if (Interface::Indexable<T>::size(data) != size) {
             Interface::Indexable<T>::resize(data, size);
@@ -47,8 +47,8 @@ struct SerializeIndexable {
     template <typename T, typename ... TupleTraits, std::enable_if_t<Interface::Indexable<T>::value, bool> = true>
     static void deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data,
                             const std::tuple<TupleTraits...>& traits){
-        using size_type = decltype(data.size());
-        size_type size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
+        using size_type = std::decay_t<typename Interface::Indexable<T>::sizeType>;
+        size_type size = BinarySerializer::readNext<size_type>(dataIterator);
 
         if (Interface::Indexable<T>::size(data) != size) {
             Interface::Indexable<T>::resize(data, size);
-- 
2.43.0


From 6da0bc498158f92daa4e9b7a38885ebf0aeef177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:06 +0000
Subject: [PATCH 59/64] fix: empty containers in the manner of TNL are
 serialized without access to their elements

---
 src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h b/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h
index d0eccdb..e29c6df 100644
--- a/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h
+++ b/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h
@@ -67,9 +67,9 @@ struct CompactContainer<
     static void resize(T & /*val*/, size_type /*new_size*/)
     {}
 
-    static const value_type *data(const T &val) { return &val[0]; }
+    static const value_type *data(const T &val) { return val.getData(); }
 
-    static value_type *data(T &val) { return &val[0]; }
+    static value_type *data(T &val) { return const_cast<value_type *>(val.getData()); }
 };
 }
 
-- 
2.43.0


From 4abe07e2eb0575c3fb5a04fc1e6543c6be4cdc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:17 +0000
Subject: [PATCH 60/64] fix: maximum and minimum of an object with an empty
 container ignored the sign of the other numbers

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h  | 35 ++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index bb4208b..5ce3608 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -896,6 +896,39 @@ public:
     using type = typename declComonType<>::type;
 };
 
+/**
+ * The result of an aggregation of no values, it does not
+ * influence the result of the aggregation of the other ones.
+ */
+template<template<typename, typename> class Operator, typename ResultType>
+struct AggregationNeutral {
+    static ResultType value() {
+        return ResultType();
+    }
+};
+
+template<typename T1, typename T2>
+struct Max;
+
+template<typename ResultType>
+struct AggregationNeutral<Max, ResultType> {
+    static ResultType value() {
+        using limits = std::numeric_limits<ResultType>;
+        return limits::has_infinity ? -limits::infinity() : limits::lowest();
+    }
+};
+
+template<typename T1, typename T2>
+struct Min;
+
+template<typename ResultType>
+struct AggregationNeutral<Min, ResultType> {
+    static ResultType value() {
+        using limits = std::numeric_limits<ResultType>;
+        return limits::has_infinity ? limits::infinity() : limits::max();
+    }
+};
+
 template<template<typename, typename> class Operator>
 struct TraitsAggregationProcesor {
 private:
@@ -957,7 +990,7 @@ public:
 
             return  res;
         }
-        return decltype (evaluate(array[0]))();
+        return AggregationNeutral<Operator, decltype (evaluate(array[0]))>::value();
     }
 
 
-- 
2.43.0


From 3bfc891823d56142ba7d7dd79eda776db46d0533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:45 +0000
Subject: [PATCH 61/64] fix: writing with an existing writer erased a file of
 an unknown format

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 42457a6..cbdeca9 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -401,7 +401,8 @@ public:
           std::unique_ptr<MeshWriter<MeshDimension>>& writer,
           const MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim>& cellTypes = MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim>(),
           const std::string& dataHeader = ""){
-        if (!writer) {
+        // a file of an unknown format must not be touched
+        if (!writer || !(checkExtension(filePath, ".vtk") || checkExtension(filePath, ".fpma"))) {
             writer = write(filePath, cellTypes, dataHeader);
         } else {
 
@@ -478,7 +479,8 @@ public:
           std::unique_ptr<MeshWriter<MeshDimension>>& writer,
           const MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim>& cellTypes = MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim>(),
           const std::string& dataHeader = ""){
-        if (!writer) {
+        // a file of an unknown format must not be touched
+        if (!writer || !checkExtension(filePath, ".vtk")) {
             writer = write(filePath, cellTypes, dataHeader);
         } else {
 
-- 
2.43.0


From 7add82a4a5f82b0129685e945a95634386930875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:55 +0000
Subject: [PATCH 62/64] fix: the mesh signature tells apart faces whose
 weighted sums of indices agree

---
 .../MeshElements/MeshElements.h               | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index 02bbac3..d9976ac 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -202,32 +202,34 @@ private:
     struct HashOfMeshElements{
 
         // Only the elements of dimension Dimension - 1 are connected to cells
-        static void hashCellConnection(const CellBoundaryConnection<IndexType>& element, size_t& elemHash)
+        static void appendCellConnection(const CellBoundaryConnection<IndexType>& element, std::vector<IndexType>& indices)
         {
-            std::hash<IndexType> indexHasher;
             for (IndexType index : {element.getCellLeftIndex(), element.getCellRightIndex(),
                                     element.getNextBElemWRTCL(), element.getNextBElemWRTCR()}) {
-                elemHash = elemHash * 31 + indexHasher(index);
+                indices.push_back(index);
             }
         }
 
         template<typename Element>
         static typename std::enable_if<!std::is_base_of<CellBoundaryConnection<IndexType>, Element>::value>::type
-        hashCellConnection(const Element&, size_t&) {}
+        appendCellConnection(const Element&, std::vector<IndexType>&) {}
 
         static size_t hash(MeshElements<Dimension, IndexType, Real, Reserve...>& mesh)
         {
-            std::hash<IndexType> indexHasher;
-
-            // Hash of generic element eg. face
-            size_t elemHash = mesh.getElements<Dim>().size();
+            // Hash of generic element eg. face. The indices are collected to be hashed
+            // together, std::hash of a single index is usually the index itself.
+            std::vector<IndexType> indices;
             for(auto& element : mesh.getElements<Dim>()) {
-                elemHash = elemHash * 31 + element.getSubelements().size();
+                indices.push_back(element.getSubelements().size());
                 for (auto& subElement : element.getSubelements()) {
-                    elemHash = elemHash * 31 + indexHasher(subElement);
+                    indices.push_back(subElement);
                 }
-                hashCellConnection(element, elemHash);
+                appendCellConnection(element, indices);
             }
+            std::hash<std::string> hasher;
+            // Use string as a byte container representing the array
+            std::string tmpString(reinterpret_cast<char*>(indices.data()), indices.size() * sizeof (IndexType));
+            size_t elemHash = hasher(tmpString);
             return elemHash ^ HashOfMeshElements<Dim - 1>::hash(mesh);
         }
 
-- 
2.43.0


From 4b8dc69088df792c507d8aa9b98465787e191595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:55 +0000
Subject: [PATCH 63/64] fix: only the attributes of CELL_DATA are read as data
 of cells

---
 .../MeshDataIO/VTKMeshDataReader.h              | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 19c2062..5a51bc4 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -121,12 +121,21 @@ public:
 
         std::string line;
         ist.seekg(ist.beg);
+        bool cellData = false;
         while(std::getline(ist, line, '\n')) {
 
-            int flag = (line.find("SCALARS")!= line.npos ? 1
-                                                          : line.find("VECTORS") != line.npos ? 2
-                                                          : line.find("TENSORS") != line.npos ? 3
-                                                                                              : 0 );
+            // only the attributes of the section CELL_DATA are data of cells
+            if (line.compare(0, 9, "CELL_DATA") == 0){
+                cellData = true;
+            } else if (line.compare(0, 10, "POINT_DATA") == 0){
+                cellData = false;
+            }
+
+            int flag = !cellData ? 0
+                                 : (line.compare(0, 7, "SCALARS") == 0 ? 1
+                                 : line.compare(0, 7, "VECTORS") == 0 ? 2
+                                 : line.compare(0, 7, "TENSORS") == 0 ? 3
+                                                                      : 0 );
             if (flag != 0){
                 std::string dataName;
                 std::stringstream sstream(line);
-- 
2.43.0


From 83bbd808ee957731802c0e9e1d639c14b2b8c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:55 +0000
Subject: [PATCH 64/64] fix: an attribute missing in the file does not spoil
 those read after it

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 5a51bc4..9373686 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -103,6 +103,10 @@ private:
                          std::map<std::string, std::istream::pos_type> &dataPositions,
                          const Traits<T, TraitsArgs...> &traits = DefaultIOTraits<T>::getTraits())
         {
+            // an attribute missing in the file is left as it is
+            if (dataPositions.count(traits.template getName<Index>()) == 0) {
+                return;
+            }
             readColumn<T, Index>(ist, data, dataPositions, traits);
         }
     };
-- 
2.43.0

