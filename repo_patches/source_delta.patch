From 33c55f1bdafd87a53c9fc9b29016e1dfa5436081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 001/146] fix: a group refuses repeated or missing ids before
 changing anything

Adding (or assigning) items whose id is zero or already in use threw after the
items had been appended, leaving the group with items it cannot look up.
---
 src/core/group/Identifiable.h   |  1 +
 src/core/group/Identifiable.hpp | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/core/group/Identifiable.h b/src/core/group/Identifiable.h
index 4e44dee..3a8e2b5 100755
--- a/src/core/group/Identifiable.h
+++ b/src/core/group/Identifiable.h
@@ -87,6 +87,7 @@ private:
     Id lastId_;
     std::map<Id, std::size_t> mapId_;
 
+    void checkIds_(const Group<T>&, const bool together) const;
     void postprocess_(const std::size_t& pos);
     std::vector<std::size_t> getElemsId_(const std::vector<Id>&) const;
 };
diff --git a/src/core/group/Identifiable.hpp b/src/core/group/Identifiable.hpp
index a502457..82bc1d1 100755
--- a/src/core/group/Identifiable.hpp
+++ b/src/core/group/Identifiable.hpp
@@ -23,6 +23,7 @@
 
 #include "Error.h"
 
+#include <set>
 #include <string>
 
 namespace SEMBA {
@@ -92,6 +93,7 @@ Identifiable<T,Id>& Identifiable<T,Id>::operator=(Group<T>& rhs) {
     if (this == &rhs) {
         return *this;
     }
+    checkIds_(rhs, false);
     Group<T>::operator=(rhs);
     postprocess_(0);
     return *this;
@@ -102,6 +104,7 @@ Identifiable<T,Id>& Identifiable<T,Id>::operator=(Group<T>&& rhs) {
     if (this == &rhs) {
         return *this;
     }
+    checkIds_(rhs, false);
     Group<T>::operator=(std::move(rhs));
     postprocess_(0);
     return *this;
@@ -157,6 +160,7 @@ Identifiable<const T,Id> Identifiable<T,Id>::getId(
 
 template<typename T, class Id>
 Group<T> Identifiable<T,Id>::add(Group<T>& rhs) {
+    checkIds_(rhs, true);
     std::size_t lastSize = this->size();
     Group<T>::add(rhs);
     postprocess_(lastSize);
@@ -165,6 +169,7 @@ Group<T> Identifiable<T,Id>::add(Group<T>& rhs) {
 
 template<typename T, class Id>
 Group<T> Identifiable<T,Id>::add(Group<T>&& rhs) {
+    checkIds_(rhs, true);
     std::size_t lastSize = this->size();
     Group<T>::add(std::move(rhs));
     postprocess_(lastSize);
@@ -230,6 +235,21 @@ void Identifiable<T,Id>::removeId(const std::vector<Id>& ids) {
     remove(getElemsId_(ids));
 }
 
+template<typename T, class Id>
+void Identifiable<T,Id>::checkIds_(const Group<T>& rhs,
+                                   const bool together) const {
+    std::set<Id> ids;
+    for (std::size_t i = 0; i < rhs.size(); i++) {
+        const Id id = rhs.get(i)->getId();
+        if (id == Id(0)) {
+            throw typename Error::Id::Zero<Id>();
+        }
+        if ((together && existId(id)) || !ids.insert(id).second) {
+            throw typename Error::Id::Duplicated<Id>(id);
+        }
+    }
+}
+
 template<typename T, class Id>
 void Identifiable<T,Id>::postprocess_(const std::size_t& firstStep) {
     for(std::size_t i = firstStep; i < this->size(); i++) {
-- 
2.43.0


From 0f5ed8a8b359cab7e26f4a99b5ca523eb2290560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:32 +0000
Subject: [PATCH 002/146] fix: replacing an item of a group keeps the lookup by
 id

Replacing the item at a position left the id index describing the item that is
no longer there, and accepted an id that another item already has.
---
 src/core/group/Identifiable.h   |  2 ++
 src/core/group/Identifiable.hpp | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/core/group/Identifiable.h b/src/core/group/Identifiable.h
index 3a8e2b5..e43d732 100755
--- a/src/core/group/Identifiable.h
+++ b/src/core/group/Identifiable.h
@@ -62,6 +62,8 @@ public:
     virtual Identifiable<T,Id>       getId(const std::vector<Id>&);
     virtual Identifiable<const T,Id> getId(const std::vector<Id>&) const;
 
+    virtual void set(const std::size_t i, T*);
+
     using Group<T>::add;
     Group<T> add(Group<T>&);
     Group<T> add(Group<T>&&);
diff --git a/src/core/group/Identifiable.hpp b/src/core/group/Identifiable.hpp
index 82bc1d1..a625f8f 100755
--- a/src/core/group/Identifiable.hpp
+++ b/src/core/group/Identifiable.hpp
@@ -158,6 +158,24 @@ Identifiable<const T,Id> Identifiable<T,Id>::getId(
     return this->get(getElemsId_(ids));
 }
 
+template<typename T, class Id>
+void Identifiable<T,Id>::set(const std::size_t i, T* elem) {
+    const Id oldId = this->get(i)->getId();
+    const Id newId = elem->getId();
+    if (newId == Id(0)) {
+        throw typename Error::Id::Zero<Id>();
+    }
+    if (newId != oldId && existId(newId)) {
+        throw typename Error::Id::Duplicated<Id>(newId);
+    }
+    Group<T>::set(i, elem);
+    mapId_.erase(oldId);
+    mapId_[newId] = i;
+    if (newId > lastId_) {
+        lastId_ = newId;
+    }
+}
+
 template<typename T, class Id>
 Group<T> Identifiable<T,Id>::add(Group<T>& rhs) {
     checkIds_(rhs, true);
-- 
2.43.0


From c067047ba3821a3b9c263014b24d1e6d0e9d546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:55 +0000
Subject: [PATCH 003/146] fix: rescaled coordinates can be found by position

Rescaling changed the keys of the position index in place; with a negative
factor the index was no longer sorted and stored positions were not found.
---
 src/core/geometry/coordinate/Group.h   | 1 +
 src/core/geometry/coordinate/Group.hpp | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/src/core/geometry/coordinate/Group.h b/src/core/geometry/coordinate/Group.h
index 76cc112..b5d24d0 100755
--- a/src/core/geometry/coordinate/Group.h
+++ b/src/core/geometry/coordinate/Group.h
@@ -104,6 +104,7 @@ private:
     std::multiset<const CoordR3*, CoordComparator> indexUnstr_;
     std::multiset<const CoordI3*, CoordComparator> indexStr_;
 
+    void rebuildIndex_();
     void postprocess_(const std::size_t i);
 };
 
diff --git a/src/core/geometry/coordinate/Group.hpp b/src/core/geometry/coordinate/Group.hpp
index c017603..0039f0f 100755
--- a/src/core/geometry/coordinate/Group.hpp
+++ b/src/core/geometry/coordinate/Group.hpp
@@ -265,6 +265,7 @@ void Group<C>::applyScalingFactor(const Math::Real factor) {
             *ptr *= factor;
         }
     }
+    rebuildIndex_();
 }
 
 template<typename C>
@@ -274,6 +275,13 @@ void Group<C>::printInfo() const {
     SEMBA::Group::Printable<C>::printInfo();
 }
 
+template<typename C>
+void Group<C>::rebuildIndex_() {
+    indexUnstr_.clear();
+    indexStr_.clear();
+    postprocess_(0);
+}
+
 template<typename C>
 void Group<C>::postprocess_(const std::size_t fistStep) {
     for (std::size_t i = fistStep; i < this->size(); i++) {
-- 
2.43.0


From 6d0c79d65372bb88c529e528970afcdae7fcaf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:55 +0000
Subject: [PATCH 004/146] fix: replacing a coordinate of a group keeps the
 lookup by position

The index kept a pointer to the replaced (usually destroyed) coordinate.
---
 src/core/geometry/coordinate/Group.h   | 2 ++
 src/core/geometry/coordinate/Group.hpp | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/core/geometry/coordinate/Group.h b/src/core/geometry/coordinate/Group.h
index b5d24d0..ab17106 100755
--- a/src/core/geometry/coordinate/Group.h
+++ b/src/core/geometry/coordinate/Group.h
@@ -80,6 +80,8 @@ public:
 	SEMBA::Group::Group<const C> getAllInPos(const Math::CVecI3& pos) const;
 
 
+    void set(const std::size_t i, C*);
+
     using SEMBA::Group::Identifiable<C,Id>::add;
     SEMBA::Group::Group<C> add(SEMBA::Group::Group<C>&);
     SEMBA::Group::Group<C> add(SEMBA::Group::Group<C>&&);
diff --git a/src/core/geometry/coordinate/Group.hpp b/src/core/geometry/coordinate/Group.hpp
index 0039f0f..6762174 100755
--- a/src/core/geometry/coordinate/Group.hpp
+++ b/src/core/geometry/coordinate/Group.hpp
@@ -156,6 +156,12 @@ SEMBA::Group::Group<const C> Group<C>::getAllInPos(
 	return res;
 }
 
+template<typename C>
+void Group<C>::set(const std::size_t i, C* elem) {
+    SEMBA::Group::Identifiable<C,Id>::set(i, elem);
+    rebuildIndex_();
+}
+
 template<typename C>
 SEMBA::Group::Group<C> Group<C>::add(SEMBA::Group::Group<C>& rhs) {
     std::size_t lastSize = this->size();
-- 
2.43.0


From 7aaef4c83529e14e359f8bfa53f011c606fb107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:45 +0000
Subject: [PATCH 005/146] fix: an element using a coordinate twice is selected
 once by that coordinate

Selecting threw a duplicated id exception for closed lines and other elements
that repeat a coordinate.
---
 src/core/geometry/element/Group.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index 8245c67..d65f9f1 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -66,6 +66,7 @@ Group<const E> Group<E>::getCoordId(const CoordId id) const {
 		for (size_t j = 0; j < elem->numberOfCoordinates(); j++) {
 			if (elem->getV(j)->getId() == id) {
 				res.add(elem);
+				break;
 			}
 		}
 	}
-- 
2.43.0


From 07b0f0c51cf7210b46d3c0b4f0da2603995d9488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:45 +0000
Subject: [PATCH 006/146] fix: the closest vertex is searched for the requested
 position

The search dereferenced a null candidate, never looked at the position and used
the coordinate counter to index the elements.
---
 src/core/geometry/element/Group.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index d65f9f1..d845d44 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -220,11 +220,12 @@ const CoordR3* Group<E>::getClosestVertex(const Math::CVecR3 pos) const {
     Math::Real minDist = std::numeric_limits<Math::Real>::infinity();
     Group<const ElemR> elems = this->template getOf<ElemR>();
     for (std::size_t b = 0; b < elems.size(); b++) {
-        for (std::size_t i = 0; i < elems(i)->numberOfCoordinates(); i++) {
-            const CoordR3* candidate = elems(i)->getV(i);
-            if ((candidate->pos() - res->pos()).norm() < minDist) {
+        for (std::size_t i = 0; i < elems(b)->numberOfCoordinates(); i++) {
+            const CoordR3* candidate = elems(b)->getV(i);
+            const Math::Real dist = (candidate->pos() - pos).norm();
+            if (dist < minDist) {
                 res = candidate;
-                minDist = (candidate->pos() - res->pos()).norm();
+                minDist = dist;
             }
         }
     }
-- 
2.43.0


From dd2b3f61b0ad4372535749bc6010fb17afc1d474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 007/146] fix: assigning data frees what the target held

---
 src/core/Data.cpp | 51 ++++++++---------------------------------------
 1 file changed, 8 insertions(+), 43 deletions(-)

diff --git a/src/core/Data.cpp b/src/core/Data.cpp
index 538db1a..ec039b8 100755
--- a/src/core/Data.cpp
+++ b/src/core/Data.cpp
@@ -21,6 +21,8 @@
 
 #include "Data.h"
 
+#include <utility>
+
 namespace SEMBA {
 
 Data::Data() {
@@ -101,49 +103,12 @@ Data& Data::operator=(const Data& rhs) {
         return *this;
     }
 
-    solver = nullptr;
-    mesh = nullptr;
-    physicalModels = nullptr;
-    sources = nullptr;
-    outputRequests = nullptr;
-
-    if (rhs.solver != nullptr) {
-        solver = new Solver::Info(*rhs.solver);
-    }
-
-    if (rhs.physicalModels != nullptr) {
-        physicalModels = rhs.physicalModels->clone();
-    }
-
-    if (rhs.mesh != nullptr) {
-        mesh = rhs.mesh->cloneTo<Geometry::Mesh::Mesh>();
-        if (physicalModels != nullptr) {
-            mesh->reassignPointers(*physicalModels);
-        } else {
-            mesh->reassignPointers();
-        }
-
-        if (rhs.outputRequests != nullptr) {
-            outputRequests = rhs.outputRequests->clone();
-            for (size_t i = 0; i < outputRequests->size(); ++i) {
-                Geometry::Element::Group<const Geometry::Elem> outRqElems =
-                        (*outputRequests)(i)->elems();
-                mesh->reassign(outRqElems);
-                (*outputRequests)(i)->set(outRqElems);
-            }
-        }
-
-        if (rhs.sources != nullptr) {
-            sources = rhs.sources->clone();
-            for (size_t i = 0; i < sources->size(); ++i) {
-                Geometry::Element::Group<const Geometry::Elem> sourceElems =
-                        (*sources)(i)->elems();
-                mesh->reassign(sourceElems);
-                (*sources)(i)->set(sourceElems);
-            }
-        }
-    }
-
+    Data aux(rhs);
+    std::swap(solver, aux.solver);
+    std::swap(mesh, aux.mesh);
+    std::swap(physicalModels, aux.physicalModels);
+    std::swap(sources, aux.sources);
+    std::swap(outputRequests, aux.outputRequests);
     return *this;
 }
 
-- 
2.43.0


From eaaba440e4301cb431e0c47b38210831bea94be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 008/146] fix: copied data keeps sources and output requests
 when there is no mesh

---
 src/core/Data.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/Data.cpp b/src/core/Data.cpp
index ec039b8..a813bba 100755
--- a/src/core/Data.cpp
+++ b/src/core/Data.cpp
@@ -76,6 +76,13 @@ Data::Data(const Data& rhs) {
                 (*sources)(i)->set(sourceElems);
             }
         }
+    } else {
+        if (rhs.outputRequests != nullptr) {
+            outputRequests = rhs.outputRequests->clone();
+        }
+        if (rhs.sources != nullptr) {
+            sources = rhs.sources->clone();
+        }
     }
 
 }
-- 
2.43.0


From 153aa1ea008aeb5bb0a44e0f97ffdd7162aecce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 009/146] fix: converted meshes refer to their own layers

---
 src/core/geometry/mesh/Structured.cpp   | 1 +
 src/core/geometry/mesh/Unstructured.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/geometry/mesh/Structured.cpp b/src/core/geometry/mesh/Structured.cpp
index d7f5185..ad387eb 100755
--- a/src/core/geometry/mesh/Structured.cpp
+++ b/src/core/geometry/mesh/Structured.cpp
@@ -106,6 +106,7 @@ Unstructured* Structured::getMeshUnstructured() const {
     }
     res->elems().add(newElems);
     res->layers() = layers().cloneElems();
+    res->elems().reassignPointers(res->layers());
     return res;
 }
 
diff --git a/src/core/geometry/mesh/Unstructured.cpp b/src/core/geometry/mesh/Unstructured.cpp
index 6f55741..6b3d1e1 100755
--- a/src/core/geometry/mesh/Unstructured.cpp
+++ b/src/core/geometry/mesh/Unstructured.cpp
@@ -95,6 +95,7 @@ Structured* Unstructured::getMeshStructured(const Grid3& grid,
     }
     res->elems().add(newElems);
     res->layers() = layers().cloneElems();
+    res->elems().reassignPointers(res->layers());
     return res;
 }
 
-- 
2.43.0


From 50b40f7a6d7e9949e8470b69edaf5edbec271cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 010/146] fix: a grid built without a step spans its box

---
 src/core/geometry/Grid.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index a3bcb1b..7edef79 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -50,9 +50,11 @@ Grid<D>::Grid(const BoxRD& box,
                 nCells++;
             }
         }
+        const Math::Real step = (dxyz(i) == (Math::Real) 0.0) ?
+            boxLength : dxyz(i);
         pos_[i].resize(nCells+1);
         for (std::size_t j = 0; j < nCells+1; j++) {
-            pos_[i][j] = origin(i) + j * dxyz(i);
+            pos_[i][j] = origin(i) + j * step;
         }
     }
 }
-- 
2.43.0


From cd2534f4f0613a59abea0b85bb2cfb50ee766640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:13 +0000
Subject: [PATCH 011/146] fix: no extra grid cell because of rounding in the
 box length

---
 src/core/geometry/Grid.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 7edef79..1e66f45 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -44,7 +44,8 @@ Grid<D>::Grid(const BoxRD& box,
         if (dxyz(i) == (Math::Real) 0.0) {
             nCells = 1;
         } else {
-            nCells = ceil(boxLength / dxyz(i));
+            nCells = Math::Util::ceil(boxLength / dxyz(i),
+                                      Math::Util::tolerance);
             if (Math::Util::greater(boxLength, nCells*dxyz(i),
                     dxyz(i), tolerance)) {
                 nCells++;
-- 
2.43.0


From 0c96939f44b954aa17fcabe582c66bae4b60e312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:49 +0000
Subject: [PATCH 012/146] fix: a grid whose axes have different steps is not
 cartesian

---
 src/core/geometry/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 1e66f45..4fb6203 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -221,7 +221,7 @@ bool Grid<D>::isCartesian() const {
     Math::Real canon = getStep(Math::Constants::x)[0];
     for (std::size_t i = 0; i < D; i++) {
         std::vector<Math::Real> step = getStep(i);
-        for (std::size_t n = 1; n < step.size(); n++) {
+        for (std::size_t n = 0; n < step.size(); n++) {
             if (Math::Util::notEqual(step[n], canon, canon, tolerance)) {
                 return false;
             }
-- 
2.43.0


From 8248a6342fc00a6e9670e821e9a2271f7c7801dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 013/146] fix: a point on the upper bound of a grid is in its
 last cell

---
 src/core/geometry/Grid.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 4fb6203..2127602 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -346,6 +346,11 @@ Box<Math::Real,D> Grid<D>::getBoxRContaining(const CVecRD& point) const {
 template<std::size_t D>
 Box<Math::Int,D> Grid<D>::getBoxIContaining(const CVecRD& point) const {
     CVecID min = getCell(point, false);
+    for (std::size_t d = 0; d < D; d++) {
+        if (min(d) > 0 && min(d) >= getNumCells()(d)) {
+            min(d) = getNumCells()(d) - 1;
+        }
+    }
     CVecID max = min + 1;
     return BoxID(min, max);
 }
-- 
2.43.0


From 4a6c6d8cdaa4444874cfe9fa241a544537baf909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 014/146] fix: enlarging the upper bound of a grid uses its
 last step

---
 src/core/geometry/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 2127602..a866f55 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -645,7 +645,7 @@ void Grid<D>::enlargeBound(Math::Constants::CartesianAxis d,
         boundCell = this->getNumCells()(d) - 1;
     }
     std::vector<Math::Real> newSteps;
-    if (Math::Util::greaterEqual(getStep(d,b), siz) || siz == 0.0) {
+    if (Math::Util::greaterEqual(getStep(d,boundCell), siz) || siz == 0.0) {
         siz = getStep(d,boundCell);
         // Computes enlargement for a padding with same size.
         Math::Real nCellsFrac = std::abs(pad/siz);
-- 
2.43.0


From 7b581600025a35ba95ec31f0e223da643496ca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 015/146] fix: adding no steps to a grid leaves it as it is

---
 src/core/geometry/Grid.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index a866f55..d292978 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -126,6 +126,9 @@ void Grid<D>::setAdditionalSteps(
         const Math::Constants::CartesianBound b,
         const std::vector<Math::Real>& step) {
     const std::size_t nCells = step.size();
+    if (nCells == 0) {
+        return;
+    }
     std::vector<Math::Real> newPos(nCells);
     if (b == Math::Constants::U) {
         newPos[0] = pos_[d].back() + step[0];
-- 
2.43.0


From 254029ab4c028ee4588f05d94e9a03f7348fde83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 016/146] fix: the cell box of a grid ends at its last line

---
 src/core/geometry/Grid.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index d292978..715528f 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -325,12 +325,7 @@ Box<Math::Real,D> Grid<D>::getFullDomainBoundingBox() const {
 
 template<std::size_t D>
 Box<Math::Int,D> Grid<D>::getFullDomainBoundingCellBox() const {
-    CVecID min, max, dims;
-    for (std::size_t n=0; n<D; n++){
-        dims[n] = pos_[n].size();
-    }
-
-    return BoxID(CVecID(0,0,0), dims);
+    return BoxID(CVecID(0,0,0), getNumCells());
 }
 
 template<std::size_t D>
-- 
2.43.0


From 00715a355149575adfefc9c3a02d5271113c3292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 017/146] fix: grid lines at zero have the same tolerance as
 any other

---
 src/core/geometry/Grid.h   |  3 +++
 src/core/geometry/Grid.hpp | 18 +++++++++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/core/geometry/Grid.h b/src/core/geometry/Grid.h
index 10659a9..6bde389 100755
--- a/src/core/geometry/Grid.h
+++ b/src/core/geometry/Grid.h
@@ -145,6 +145,9 @@ public:
 
 private:
     std::vector<Math::Real> pos_[D];
+
+    static bool isAtPos(const Math::Real x, const Math::Real pos,
+                        const Math::Real step, const Math::Real tol);
 };
 
 typedef Grid<3> Grid3;
diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 715528f..6b1c263 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -388,6 +388,14 @@ std::vector< Math::Vector::Cartesian<Math::Real,D> >
     return res;
 }
 
+template<std::size_t D>
+bool Grid<D>::isAtPos(const Math::Real x, const Math::Real pos,
+                      const Math::Real step, const Math::Real tol) {
+    // Relative to the step also when one of the positions is zero.
+    return Math::Util::equal(x, pos, step, tol) ||
+           std::abs(x - pos) <= tol * step;
+}
+
 template<std::size_t D>
 std::vector<Math::Real> Grid<D>::getPosInRange(const std::size_t dir,
         const Math::Real min,
@@ -403,8 +411,8 @@ std::vector<Math::Real> Grid<D>::getPosInRange(const std::size_t dir,
         } else {
             step = steps.back();
         }
-        const bool inMin = Math::Util::equal(pos[i], min, step, tolerance);
-        const bool inMax = Math::Util::equal(pos[i], max, step, tolerance);
+        const bool inMin = isAtPos(pos[i], min, step, tolerance);
+        const bool inMax = isAtPos(pos[i], max, step, tolerance);
         const bool inRange = (pos[i] >= min && pos[i] <= max);
         if (inMin || inMax || inRange) {
             res.push_back(pos[i]);
@@ -469,7 +477,7 @@ std::pair<Math::Int, Math::Real> Grid<D>::getCellPair(const std::size_t dir,
     std::vector<Math::Real> steps = getStep(dir);
     assert(pos_[dir].size() >= 1);
     // Checks if it is below the grid.
-    if (Math::Util::lower(x, pos[0], steps[0], tol)) {
+    if (x < pos[0] && !isAtPos(x, pos[0], steps[0], tol)) {
         cell = 0;
         dist = (x-pos[0])/steps[0];
         if (err != nullptr) {
@@ -486,14 +494,14 @@ std::pair<Math::Int, Math::Real> Grid<D>::getCellPair(const std::size_t dir,
         } else {
             step = steps.back();
         }
-        if (Math::Util::equal(x, pos[i], step, tol)) {
+        if (isAtPos(x, pos[i], step, tol)) {
             cell = i;
             dist = 0.0;
             if (err != nullptr) {
                 *err = false;
             }
             return std::make_pair(cell, dist);
-        } else if (Math::Util::lower(x, pos[i], step, tol)) {
+        } else if (x < pos[i]) {
             cell = i - 1;
             dist = (x - pos[i-1])/step;
             if(Math::Util::equal(Math::Util::round(dist),1.0) && approx) {
-- 
2.43.0


From a2d1898c2c47b47f7db67e3a5803ee36f9a238b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:26 +0000
Subject: [PATCH 018/146] fix: chopping a box uses only the grid lines inside
 it

---
 src/core/geometry/Box.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/core/geometry/Box.hpp b/src/core/geometry/Box.hpp
index 800f16c..519e07e 100755
--- a/src/core/geometry/Box.hpp
+++ b/src/core/geometry/Box.hpp
@@ -400,15 +400,16 @@ std::vector<Box<T,D>> Box<T,D>::chop(const Grid<D>& grid) const {
     // Prepares subgrid with the size of the box preserving grid positions.
     std::vector<Math::Real> pos[D];
     for (std::size_t d = 0; d < D; d++) {
-        pos[d] = grid.getPosInRange(d, min_(d), max_(d));
-        if (min_(d) != pos[d].front()) {
-            std::vector<Math::Real> aux(1,min_(d));
-            aux.insert(aux.end(), pos[d].begin(), pos[d].end());
-            pos[d] = aux;
-        }
-        if (max_(d) != pos[d].back()) {
-            pos[d].push_back(max_(d));
+        const std::vector<Math::Real> lines =
+            grid.getPosInRange(d, min_(d), max_(d));
+        pos[d].push_back(min_(d));
+        for (std::size_t i = 0; i < lines.size(); i++) {
+            if (Math::Util::lower(min_(d), lines[i]) &&
+                Math::Util::lower(lines[i], max_(d))) {
+                pos[d].push_back(lines[i]);
+            }
         }
+        pos[d].push_back(max_(d));
     }
     Grid<D> subGrid;
     subGrid.setPos(pos);
-- 
2.43.0


From 768de9bcbd93d078928c1595a8a6ff67011934b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:53 +0000
Subject: [PATCH 019/146] fix: the pieces of a chopped real box are at grid
 positions, not indices

---
 src/core/geometry/Box.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/Box.hpp b/src/core/geometry/Box.hpp
index 519e07e..c2fe307 100755
--- a/src/core/geometry/Box.hpp
+++ b/src/core/geometry/Box.hpp
@@ -422,8 +422,10 @@ std::vector<Box<T,D>> Box<T,D>::chop(const Grid<D>& grid) const {
     for (Math::Int i = 0; i < numBoxes(Math::Constants::x); i++) {
         for (Math::Int j = 0; j < numBoxes(Math::Constants::y); j++) {
             for (Math::Int k = 0; k < numBoxes(Math::Constants::z); k++) {
-                CVecTD minP = subGrid.getPos(CVecTD(i,j,k));
-                CVecTD maxP = subGrid.getPos(CVecTD(i+1,j+1,k+1));
+                Math::Vector::Cartesian<Math::Real,D> minP =
+                    subGrid.getPos(Math::CVecI3(i,j,k));
+                Math::Vector::Cartesian<Math::Real,D> maxP =
+                    subGrid.getPos(Math::CVecI3(i+1,j+1,k+1));
                 CVecTD minT, maxT;
                 for (std::size_t d = 0; d < D; d++) {
                     if (minP(d) >= min_(d)) {
-- 
2.43.0


From e43934b8eaf37df8520862ee716ea0122fea4340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:19 +0000
Subject: [PATCH 020/146] fix: adding an empty box to a box leaves it as it is

---
 src/core/geometry/Box.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/geometry/Box.hpp b/src/core/geometry/Box.hpp
index c2fe307..31fd68f 100755
--- a/src/core/geometry/Box.hpp
+++ b/src/core/geometry/Box.hpp
@@ -114,8 +114,7 @@ void Box<T,D>::operator << (const CVecTD& p) {
 
 template<class T, std::size_t D>
 void Box<T,D>::operator<<(const Box<T,D>& p) {
-    *this << p.min_;
-    *this << p.max_;
+    *this += p;
 }
 
 template<class T, std::size_t D>
-- 
2.43.0


From 3eaa806931fdc4fba36ce9db646a055d136f6dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 021/146] fix: an infinite box of integers holds every point

---
 src/core/geometry/Box.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/geometry/Box.hpp b/src/core/geometry/Box.hpp
index 31fd68f..53e38d9 100755
--- a/src/core/geometry/Box.hpp
+++ b/src/core/geometry/Box.hpp
@@ -455,10 +455,8 @@ void Box<T,D>::set(const std::pair<CVecTD, CVecTD>& minMax) {
 
 template<class T, std::size_t D>
 inline Box<T,D>& Box<T,D>::setInfinity() {
-    for(std::size_t j = 0; j < D; j++) {
-        min_(j) = - std::numeric_limits<T>::infinity();
-        max_(j) = std::numeric_limits<T>::infinity();
-    }
+    min_.setMinusInfty();
+    max_.setPlusInfty();
     return *this;
 }
 
-- 
2.43.0


From b06a546418437e79f09b7fb83a4611a95ac37a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:52 +0000
Subject: [PATCH 022/146] fix: splitting a graph vertex updates every position
 and every stale neighbour

---
 src/core/geometry/graph/Vertices.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/core/geometry/graph/Vertices.hpp b/src/core/geometry/graph/Vertices.hpp
index 7f6647d..981c11f 100755
--- a/src/core/geometry/graph/Vertices.hpp
+++ b/src/core/geometry/graph/Vertices.hpp
@@ -92,21 +92,20 @@ void Vertices<ELEM,BOUND>::splitBound(std::size_t i) {
         return;
     }
     this->bounds_[i]->setBounds(oldAdj[0]);
-    this->bounds_[i]->getBound(0)->constructNeighbors();
-    this->bounds_[i]->constructNeighbors();
     for (std::size_t j = 1; j < oldAdj.size(); j++) {
         this->bounds_.push_back(new GraphBound(*this->bounds_[i]));
         this->bounds_.back()->setBounds(oldAdj[j]);
-        if (oldAdj[j]->getBound(0)->elem()->getId() ==
-            this->bounds_[i]->elem()->getId()) {
-            oldAdj[j]->setBound(0, this->bounds_.back());
+        for (std::size_t k = 0; k < oldAdj[j]->numBounds(); k++) {
+            if (oldAdj[j]->getBound(k) == this->bounds_[i]) {
+                oldAdj[j]->setBound(k, this->bounds_.back());
+            }
         }
-        if (oldAdj[j]->getBound(1)->elem()->getId() ==
-            this->bounds_[i]->elem()->getId()) {
-            oldAdj[j]->setBound(1, this->bounds_.back());
+    }
+    for (std::size_t j = 0; j < oldAdj.size(); j++) {
+        oldAdj[j]->constructNeighbors();
+        for (std::size_t k = 0; k < oldAdj[j]->numBounds(); k++) {
+            oldAdj[j]->getBound(k)->constructNeighbors();
         }
-        this->bounds_.back()->getBound(0)->constructNeighbors();
-        this->bounds_.back()->constructNeighbors();
     }
 }
 
-- 
2.43.0


From 4a6ead73f6fc620ead5744bae1155b09b92a0528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:11 +0000
Subject: [PATCH 023/146] fix: assigning a graph deep-copies it instead of
 sharing nodes freed twice

---
 src/core/geometry/graph/Graph.h   |  2 +-
 src/core/geometry/graph/Graph.hpp | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/graph/Graph.h b/src/core/geometry/graph/Graph.h
index eddf1a7..e8d780d 100755
--- a/src/core/geometry/graph/Graph.h
+++ b/src/core/geometry/graph/Graph.h
@@ -46,7 +46,7 @@ public:
 
     virtual Graph& init(const Group::Group<const Elem>& elems) = 0;
 
-    //Graph& operator=(const Graph&);
+    Graph& operator=(const Graph&);
 
     std::size_t numElems () const { return elems_.size();  }
     std::size_t numBounds() const { return bounds_.size(); }
diff --git a/src/core/geometry/graph/Graph.hpp b/src/core/geometry/graph/Graph.hpp
index 3ec07d1..c7cdf89 100755
--- a/src/core/geometry/graph/Graph.hpp
+++ b/src/core/geometry/graph/Graph.hpp
@@ -55,6 +55,20 @@ Graph<ELEM,BOUND>::~Graph() {
 //    cloneInfo(rhs);
 //    return *this;
 //}
+template<class ELEM, class BOUND>
+Graph<ELEM,BOUND>& Graph<ELEM,BOUND>::operator=(const Graph& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    for (std::size_t i = 0; i < elems_.size(); i++) {
+        delete elems_[i];
+    }
+    for (std::size_t i = 0; i < bounds_.size(); i++) {
+        delete bounds_[i];
+    }
+    cloneInfo(rhs);
+    return *this;
+}
 
 template<class ELEM, class BOUND>
 void Graph<ELEM,BOUND>::printInfo() const {
-- 
2.43.0


From 0f54aae859317b7dafccb1efca8da09d1e95a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 024/146] fix: copied connectivities index their own graph

---
 src/core/geometry/graph/Connectivities.cpp | 19 +++++++++++++++++++
 src/core/geometry/graph/Connectivities.h   |  5 +++++
 2 files changed, 24 insertions(+)

diff --git a/src/core/geometry/graph/Connectivities.cpp b/src/core/geometry/graph/Connectivities.cpp
index faaaef1..ad29200 100755
--- a/src/core/geometry/graph/Connectivities.cpp
+++ b/src/core/geometry/graph/Connectivities.cpp
@@ -41,6 +41,25 @@ Connectivities::~Connectivities() {
 Connectivities::Connectivities(const Group::Group<const ElemR>& eG) {
     // Generates graph.
     graph_.init(eG);
+    buildIndex_();
+}
+
+Connectivities::Connectivities(const Connectivities& rhs)
+:   graph_(rhs.graph_) {
+    buildIndex_();
+}
+
+Connectivities& Connectivities::operator=(const Connectivities& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    graph_ = rhs.graph_;
+    buildIndex_();
+    return *this;
+}
+
+void Connectivities::buildIndex_() {
+    index_.clear();
     for (std::size_t i = 0; i < graph_.numElems(); i++) {
         GraphElem* graphElem = graph_.elem(i);
         ElemId id = graphElem->elem()->getId();
diff --git a/src/core/geometry/graph/Connectivities.h b/src/core/geometry/graph/Connectivities.h
index 74133b5..099bd19 100755
--- a/src/core/geometry/graph/Connectivities.h
+++ b/src/core/geometry/graph/Connectivities.h
@@ -38,8 +38,11 @@ public:
 
     Connectivities();
     Connectivities(const Group::Group<const ElemR>& eG);
+    Connectivities(const Connectivities& rhs);
     virtual ~Connectivities();
 
+    Connectivities& operator=(const Connectivities& rhs);
+
     std::size_t size() const;
 
     // Returns face of volume matching given face.
@@ -61,6 +64,8 @@ private:
     Vertices<ElemR,CoordR3> graph_;
     std::map<ElemId, const GraphElem*> index_;
 
+    void buildIndex_();
+
     Face getMatchingFace_(
             const GraphElem* local,
             const std::vector<const CoordR3*> localSideV) const;
-- 
2.43.0


From 1b41023a5985a97202f733c2c755edeb8e26b2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 025/146] fix: a surface with no volume behind it has no inner
 or outer face

---
 src/core/geometry/graph/Connectivities.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/geometry/graph/Connectivities.cpp b/src/core/geometry/graph/Connectivities.cpp
index ad29200..dd51597 100755
--- a/src/core/geometry/graph/Connectivities.cpp
+++ b/src/core/geometry/graph/Connectivities.cpp
@@ -69,6 +69,9 @@ void Connectivities::buildIndex_() {
 
 Face Connectivities::getNeighFace(const Face& face) const {
     const ElemR* elem = face.first;
+    if (elem == nullptr) {
+        return Face(nullptr, 0);
+    }
     const GraphElem* local = index_.find(elem->getId())->second;
     std::vector<const CoordR3*> localSideV =
         elem->getSideCoordinates(face.second);
@@ -99,6 +102,9 @@ Face Connectivities::getInnerFace(const SurfR* surf) const {
     const GraphElem* local = index_.find(surf->getId())->second;
     std::vector<const CoordR3*> localV = local->elem()->getCoordinates();
     Face face = getMatchingFace_(local, localV);
+    if (face.first == nullptr) {
+        return face;
+    }
     Math::CVecR3 faceNormal = face.first->getSideNormal(face.second);
     if ((surf->getNormal() == faceNormal) || isDomainBoundary(face)) {
         return face;
-- 
2.43.0


From a399328f9827db45755e269de7bf34f702a8e47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:29 +0000
Subject: [PATCH 026/146] fix: the first and last vertex of an element compare
 axis by axis

---
 src/core/geometry/element/Element.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index d9347e1..8c00617 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -98,6 +98,8 @@ const Coordinate::Coordinate<T,3>* Element<T>::getMinV() const {
             if(Math::Util::lower(val1, val2, res->pos().norm())) {
                 res = getVertex(i);
                 break;
+            } else if(Math::Util::greater(val1, val2, res->pos().norm())) {
+                break;
             }
         }
     }
@@ -118,6 +120,8 @@ const Coordinate::Coordinate<T,3>* Element<T>::getMaxV() const {
             if(Math::Util::greater(val1, val2, res->pos().norm())) {
                 res = getVertex(i);
                 break;
+            } else if(Math::Util::lower(val1, val2, res->pos().norm())) {
+                break;
             }
         }
     }
-- 
2.43.0


From 43ee99c9101da43df03735d9de3c0fdddf98a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:25 +0000
Subject: [PATCH 027/146] fix: a face has as many vertices as it has, not as
 many as the first face

---
 src/core/geometry/element/Element.hpp | 8 ++++----
 src/core/geometry/element/Volume.hpp  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index 8c00617..b8c7968 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -152,8 +152,8 @@ template<class T>
 std::vector<const Coordinate::Coordinate<T,3>*> Element<T>::getSideCoordinates(
         const std::size_t face) const {
     std::vector<const Coordinate::Coordinate<T,3>*>
-        res(numberOfSideCoordinates());
-    for (std::size_t i = 0; i < numberOfSideCoordinates(); i++) {
+        res(numberOfSideCoordinates(face));
+    for (std::size_t i = 0; i < numberOfSideCoordinates(face); i++) {
         res[i] = getSideV(face,i);
     }
     return res;
@@ -163,8 +163,8 @@ template<class T>
 std::vector<const Coordinate::Coordinate<T,3>*> Element<T>::getSideVertices(
         const std::size_t face) const {
     std::vector<const Coordinate::Coordinate<T, 3>*> res;
-    res.resize(numberOfSideVertices());
-    for (std::size_t i = 0; i < numberOfSideVertices(); i++) {
+    res.resize(numberOfSideVertices(face));
+    for (std::size_t i = 0; i < numberOfSideVertices(face); i++) {
         res[i] = getSideVertex(face,i);
     }
     return res;
diff --git a/src/core/geometry/element/Volume.hpp b/src/core/geometry/element/Volume.hpp
index a0578dc..03dfa40 100755
--- a/src/core/geometry/element/Volume.hpp
+++ b/src/core/geometry/element/Volume.hpp
@@ -63,7 +63,7 @@ Math::Vector::Cartesian<T,3> Volume<T>::getSideNormal(
 template<class T>
 Box<T,3> Volume<T>::getBoundOfFace(const std::size_t face) const {
     Box<T,3> res;
-   for (std::size_t i = 0; i < this->numberOfSideCoordinates(); i++) {
+   for (std::size_t i = 0; i < this->numberOfSideCoordinates(face); i++) {
       res << this->getSideV(face,i)->pos();
    }
    return res;
-- 
2.43.0


From 93da1447e686aa02bcb2b53070bef68ec328e770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:44 +0000
Subject: [PATCH 028/146] fix: the second end of a line is its second vertex

---
 src/core/geometry/element/Line2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Line2.hpp b/src/core/geometry/element/Line2.hpp
index 13d7bd9..7325e8c 100755
--- a/src/core/geometry/element/Line2.hpp
+++ b/src/core/geometry/element/Line2.hpp
@@ -118,7 +118,7 @@ template<class T>
 const Coordinate::Coordinate<T,3>* Line2<T>::getSideV(
         const std::size_t f,
         const std::size_t i) const {
-    return v_[i];
+    return v_[f];
 }
 
 template<class T>
@@ -131,7 +131,7 @@ template<class T>
 const Coordinate::Coordinate<T,3>* Line2<T>::getSideVertex(
         const std::size_t f,
         const std::size_t i) const {
-    return v_[i];
+    return v_[f];
 }
 
 template<class T>
-- 
2.43.0


From 9611fcaacd907e3e9ae5ef4cfdec9c6bb1e6bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:03 +0000
Subject: [PATCH 029/146] fix: a hexahedron with slanted edges is not regular

---
 src/core/geometry/element/Hexahedron8.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/geometry/element/Hexahedron8.hpp b/src/core/geometry/element/Hexahedron8.hpp
index e8ec60f..5dd9811 100755
--- a/src/core/geometry/element/Hexahedron8.hpp
+++ b/src/core/geometry/element/Hexahedron8.hpp
@@ -103,7 +103,7 @@ bool Hexahedron8<T>::isRegular() const {
     // Checks that all edges are aligned with one of the axis.
     static const Math::Vector::Cartesian<T,3> xAxe(1.0, 0.0, 0.0);
     static const Math::Vector::Cartesian<T,3> yAxe(0.0, 1.0, 0.0);
-    static const Math::Vector::Cartesian<T,3> zAxe(1.0, 0.0, 1.0);
+    static const Math::Vector::Cartesian<T,3> zAxe(0.0, 0.0, 1.0);
     for (std::size_t f = 0; f < numberOfFaces(); f++) {
         Math::Vector::Cartesian<T,3> first, second;
         Math::Vector::Cartesian<T,3> inc;
@@ -111,9 +111,9 @@ bool Hexahedron8<T>::isRegular() const {
             first = *getSideV(f, i);
             second = *getSideV(f, (i+1) % numberOfSideVertices());
             inc = (second - first).normalize();
-            if (!((std::abs(inc.dot(xAxe))-1.0) <= tolerance ||
-            (std::abs(inc.dot(yAxe))-1.0) <= tolerance ||
-            (std::abs(inc.dot(zAxe))-1.0) <= tolerance)) {
+            if (!(std::abs(std::abs(inc.dot(xAxe))-1.0) <= tolerance ||
+            std::abs(std::abs(inc.dot(yAxe))-1.0) <= tolerance ||
+            std::abs(std::abs(inc.dot(zAxe))-1.0) <= tolerance)) {
 
                 return false;
             }
-- 
2.43.0


From 2078b993ad27a186702873f46025d2b02a556287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:23 +0000
Subject: [PATCH 030/146] fix: the area of a face of a hexahedron is that of
 the whole face

---
 src/core/geometry/element/Hexahedron8.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Hexahedron8.hpp b/src/core/geometry/element/Hexahedron8.hpp
index 5dd9811..0b7f4a0 100755
--- a/src/core/geometry/element/Hexahedron8.hpp
+++ b/src/core/geometry/element/Hexahedron8.hpp
@@ -161,8 +161,8 @@ const std::size_t i) const {
 template<class T>
 Math::Real Hexahedron8<T>::getAreaOfFace(const std::size_t f) const {
     Math::Vector::Cartesian<T,3> v1, v2;
-    v1 = getSideV(f,1)->pos() - getSideV(f,0)->pos();
-    v2 = getSideV(f,2)->pos() - getSideV(f,0)->pos();
+    v1 = getSideV(f,2)->pos() - getSideV(f,0)->pos();
+    v2 = getSideV(f,3)->pos() - getSideV(f,1)->pos();
     return ((Math::Real) 0.5 * (v1 ^ v2).norm());
 }
 
-- 
2.43.0


From b799608de57e492090442f7b26254fff7c4b4626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:54 +0000
Subject: [PATCH 031/146] fix: crossed and skew quadrilaterals are not
 rectangular

---
 src/core/geometry/element/Surface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Surface.hpp b/src/core/geometry/element/Surface.hpp
index 8ec523b..8ea7bee 100755
--- a/src/core/geometry/element/Surface.hpp
+++ b/src/core/geometry/element/Surface.hpp
@@ -48,7 +48,7 @@ bool Surface<T>::isRectangular() const {
         Math::Vector::Cartesian<T,3> p2 = 
             this->getSideVertex((f+1)%4,1)->pos();
         Math::Real sProd = (Math::Real)(p2-p1).dot(p1 - p0);
-        if (Math::Util::greater(sProd, 0.0, 1.0)) {
+        if (Math::Util::notEqual(sProd, 0.0, 1.0)) {
             return false;
         }
     }
-- 
2.43.0


From b8666344b248a8dd0506a0177f08dbda4164e823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:59 +0000
Subject: [PATCH 032/146] fix: points on the faces of a tetrahedron do not
 depend on its orientation

---
 src/core/geometry/element/Tetrahedron4.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Tetrahedron4.cpp b/src/core/geometry/element/Tetrahedron4.cpp
index 2974111..d9885a5 100755
--- a/src/core/geometry/element/Tetrahedron4.cpp
+++ b/src/core/geometry/element/Tetrahedron4.cpp
@@ -89,7 +89,8 @@ bool Tetrahedron4::isInnerPoint(const Math::CVecR3& pos) const {
             }
         }
         Math::Real det = mat.getDeterminant4x4();
-        if ((det > (Math::Real) 0.0) != isPositive) {
+        if (det != (Math::Real) 0.0 &&
+            (det > (Math::Real) 0.0) != isPositive) {
             return false;
         }
     }
-- 
2.43.0


From c0083f38c74bc0cc3df04b776ce0600afdae1eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:03 +0000
Subject: [PATCH 033/146] fix: a conformal line without id keeps its
 coordinates

---
 src/core/geometry/element/LineConformal.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/element/LineConformal.cpp b/src/core/geometry/element/LineConformal.cpp
index 25dff46..06e3334 100755
--- a/src/core/geometry/element/LineConformal.cpp
+++ b/src/core/geometry/element/LineConformal.cpp
@@ -47,7 +47,8 @@ LineConformal::LineConformal(const CoordI3* v[2],
                              const Math::CVecR3& norm,
                              const Layer* lay,
                              const Model* mat)
-:   Elem(lay, mat) {
+:   Elem(lay, mat),
+    LinI2(v) {
     checkCoordinates();
     norm_  = norm;
 }
-- 
2.43.0


From d34d0ffd45e5112b695381437da80cf0115ee413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 034/146] fix: elements with different numbers of coordinates
 are not compared out of range

---
 src/core/geometry/element/Element.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index b8c7968..01331b9 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -43,6 +43,9 @@ bool Element<T>::operator==(const Base& rhs) const {
         return false;
     }
     const Element<T>* rhsPtr = rhs.castTo<Element<T>>();
+    if (this->numberOfCoordinates() != rhsPtr->numberOfCoordinates()) {
+        return false;
+    }
     bool res = true;
     res &= (this->getId() == rhsPtr->getId());
     for (std::size_t i = 0; i < this->numberOfCoordinates(); i++) {
-- 
2.43.0


From 4240f9aa3acd6c5da7f93323ef85df9bf18cd079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:58 +0000
Subject: [PATCH 035/146] fix: a polyhedron with an odd number of sides is not
 closed

---
 src/core/geometry/element/Polyhedron.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Polyhedron.cpp b/src/core/geometry/element/Polyhedron.cpp
index f7f5ba9..a1556ad 100755
--- a/src/core/geometry/element/Polyhedron.cpp
+++ b/src/core/geometry/element/Polyhedron.cpp
@@ -160,7 +160,8 @@ void Polyhedron::checkClosedness() const {
     }
     list.sortRows(0,1);
     for (std::size_t i = 0; i < nSidesInFaces; i += 2) {
-        if (list(i,0) != list(i+1,0) || list(i,1) != list(i+1,1)) {
+        if (i + 1 == nSidesInFaces ||
+            list(i,0) != list(i+1,0) || list(i,1) != list(i+1,1)) {
             throw Error::NotClosed();
         }
     }
-- 
2.43.0


From f87f467b42f9d4765ef3baff89eb74b70610fd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:17 +0000
Subject: [PATCH 036/146] fix: a tetrahedron with its vertices in a slanted
 plane has no volume

---
 src/core/geometry/element/Tetrahedron4.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Tetrahedron4.cpp b/src/core/geometry/element/Tetrahedron4.cpp
index d9885a5..108e5c5 100755
--- a/src/core/geometry/element/Tetrahedron4.cpp
+++ b/src/core/geometry/element/Tetrahedron4.cpp
@@ -170,7 +170,9 @@ bool Tetrahedron4::hasZeroVolume() const {
             return true;
         }
     }
-    return false;
+    // Vertices in a plane which is not aligned with the axes.
+    const Math::Real size = getBound().getLength().norm();
+    return std::abs(getVolume()) <= Math::Util::epsilon * size * size * size;
 }
 
 } /* namespace Element */
-- 
2.43.0


From 80ab3300d6cdabd1f4dead95d5ae48653f9224e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:56 +0000
Subject: [PATCH 037/146] fix: sorting rows ran out of the matrix when the last
 row was the smallest

---
 src/core/math/matrix/Matrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index dc4d0ab..c5e5907 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -308,7 +308,9 @@ void Matrix<T>::QSRows_(std::size_t p, std::size_t r,
                         const std::size_t iCol, const std::size_t lCol) {
     if (p < r) {
         std::size_t q = partitionRows_(p, r, iCol, lCol);
-        QSRows_(p, q - 1, iCol, lCol);
+        if (q > p) {
+            QSRows_(p, q - 1, iCol, lCol);
+        }
         QSRows_(q + 1, r, iCol, lCol);
     }
 }
-- 
2.43.0


From b71c44a8c027ba08e835c882b4a92bbdac6ee224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:17 +0000
Subject: [PATCH 038/146] fix: second vertex of the side of a triangle was the
 next node of the side

---
 src/core/math/simplex/Triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/simplex/Triangle.hpp b/src/core/math/simplex/Triangle.hpp
index 68d7b4d..8af3fd0 100755
--- a/src/core/math/simplex/Triangle.hpp
+++ b/src/core/math/simplex/Triangle.hpp
@@ -105,7 +105,7 @@ inline std::size_t Triangle<N>::vertex(std::size_t i) const {
 template<size_t N>
 inline std::size_t Triangle<N>::sideVertex(const std::size_t f,
                                                    const std::size_t i) const {
-    return sideNode(f,i);
+    return sideNode(f, i * (nfp - 1));
 }
 
 template <size_t N>
-- 
2.43.0


From f15d5eb16c94be084d9462d71986b0bf176f1a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 039/146] fix: Dynamic matrix built from row pointers never
 allocated its entries

---
 src/core/math/matrix/Dynamic.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index be8d999..ef4d842 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -66,6 +66,7 @@ template <class T>
 Dynamic<T>::Dynamic(std::size_t rows, std::size_t cols, T** values) {
    _nRows = rows;
    _nCols = cols;
+   _val = new T[_nRows * _nCols];
    assert(values != nullptr);
    for (std::size_t i = 0; i < _nRows; i++) {
       for (std::size_t j = 0; j < _nCols; j++) {
-- 
2.43.0


From 90fb835e6ae87894c5b443cb9478560a71a3615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 040/146] fix: Dynamic matrix operations that took the flat
 storage for a table did not compile

---
 src/core/math/matrix/Dynamic.hpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index ef4d842..98c1187 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -278,9 +278,8 @@ Dynamic<T>::sortRows_omp(
 
 template <class T>
 Dynamic<T>& Dynamic<T>::operator=(const T &param) {
-   for (std::size_t i = 0; i < _nRows; i++)
-      for (std::size_t j = 0; j < _nCols; j++)
-         _val[i][j] = param;
+   for (std::size_t i = 0; i < _nRows * _nCols; i++)
+      _val[i] = param;
    return *this;
 }
 
@@ -392,7 +391,7 @@ Dynamic<T> Dynamic<T>::operator/(const T param) const {
    Dynamic<T> res(_nRows, _nCols);
    for (i = 0; i < _nRows; i++)
       for (j = 0; j < _nCols; j++)
-         res._val[i][j] /= param;
+         res(i,j) = val(i,j) / param;
    return res;
 }
 
@@ -425,11 +424,10 @@ Dynamic<T>& Dynamic<T>::operator*=(const T param) {
 
 template <class T>
 Dynamic<T>& Dynamic<T>::operator/=(const T param) {
-   assert(_nRows == param._nRows && _nCols == param._nCols);
    std::size_t i, j;
    for (i = 0; i < _nRows; i++) {
       for (j = 0; j < _nCols; j++) {
-         _val[i][j] /= param;
+         val(i,j) /= param;
       }
    }
    return *this;
@@ -454,10 +452,12 @@ bool Dynamic<T>::operator==(const Dynamic<T>& param) const {
 template <class T>
 bool Dynamic<T>::operator<(const Dynamic<T>& param) const {
    assert(_nRows == param._nRows && _nCols == param._nCols);
-   for (std::size_t i = 0; i < _nRows; i++)
-      for (std::size_t j = 0; j < _nCols; j++)
-         if (_val[i][j] < param._val[i][j])
-            return true;
+   for (std::size_t i = 0; i < _nRows * _nCols; i++) {
+      if (_val[i] < param._val[i])
+         return true;
+      if (param._val[i] < _val[i])
+         return false;
+   }
    return false;
 }
 
@@ -508,7 +508,7 @@ void Dynamic<T>::printInfo(std::size_t fr, std::size_t lr,
    std::cout << "Stored values: " << std::endl;
    for (std::size_t i = fr; i <= lr; i++) {
       for (std::size_t j = fc; j < lc; j++)
-          std::cout << _val[i][j] << " ";
+          std::cout << val(i,j) << " ";
       std::cout << std::endl;
    }
 }
@@ -531,7 +531,7 @@ Dynamic<T> Dynamic<T>::reshape(std::size_t rows, std::size_t cols, Int order) {
       // Performs ordering taking elements from one row at a time.
       for (i = 0; i < rows; i++)
          for (j = 0; j < cols; j++) {
-            res._val[i][j] = _val[k / _nCols][k % _nCols];
+            res(i,j) = val(k / _nCols, k % _nCols);
             k++;
          }
       break;
@@ -539,7 +539,7 @@ Dynamic<T> Dynamic<T>::reshape(std::size_t rows, std::size_t cols, Int order) {
       // Performs ordering taking elements from one column at a time.
       for (i = 0; i < rows; i++)
          for (j = 0; j < cols; j++) {
-            res._val[i][j] = _val[k % _nRows][k / _nRows];
+            res(i,j) = val(k % _nRows, k / _nRows);
             k++;
          }
       break;
-- 
2.43.0


From 67094cd31c460fd3e87936ed431eef720bb70856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 041/146] fix: Kronecker product had the size and the offsets
 of another shape

---
 src/core/math/matrix/Dynamic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 98c1187..454c51f 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -549,12 +549,12 @@ Dynamic<T> Dynamic<T>::reshape(std::size_t rows, std::size_t cols, Int order) {
 
 template<class T>
 Dynamic<T> Dynamic<T>::kron(Dynamic<T>& rhs) const {
-   Dynamic<T> res(_nRows + rhs._nRows, _nCols + rhs._nCols);
+   Dynamic<T> res(_nRows * rhs._nRows, _nCols * rhs._nCols);
    for (std::size_t i = 0; i < _nRows; i++) {
       for (std::size_t j = 0; j < rhs._nRows; j++) {
          for (std::size_t k = 0; k < _nCols; k++) {
             for (std::size_t l = 0; l < rhs._nCols; l++) {
-               res(i*_nRows + j, k*_nCols + l) = val(i,k) * rhs(j,l);
+               res(i*rhs._nRows + j, k*rhs._nCols + l) = val(i,k) * rhs(j,l);
             }
          }
       }
-- 
2.43.0


From 5fd014358f8eab01472b9d86992dd4b89aadad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 042/146] fix: convolute read out of range when the operand is
 longer than the sum so far

---
 src/core/math/matrix/Dynamic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 454c51f..b0b14d9 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -473,7 +473,7 @@ Dynamic<T> Dynamic<T>::convolute(const Dynamic<T> &param) const {
    for (j = 1; j <= _nRows + param._nRows - 1; j++) {
       if (j <= _nRows)
          min = j;
-      if (j + 1 - param._nRows >= 1)
+      if (j + 1 > param._nRows)
          max = j + 1 - param._nRows;
       for (i = max; i <= min; i++)
          res(j-1,0) += val(i-1,0) * param(j-i,0);
-- 
2.43.0


From fff3f47c23b8ee71d946a6c3278110e76612f97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 043/146] fix: equal Dynamic matrices of integers compared
 different

---
 src/core/math/matrix/Dynamic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index b0b14d9..76f793c 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -441,7 +441,7 @@ bool Dynamic<T>::operator==(const Dynamic<T>& param) const {
       for (std::size_t i = 0; i < _nRows; i++) {
          for (std::size_t j = 0; j < _nCols; j++) {
             T diff = std::abs(this->operator()(i,j) - param(i,j));
-            res &= diff < std::numeric_limits<T>::epsilon() * 1e2;
+            res &= diff <= std::numeric_limits<T>::epsilon() * 1e2;
          }
       }
       return res;
-- 
2.43.0


From 4b9d16237d5f182a63e3e02dca938d0b43c4be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 044/146] fix: sorting whole rows compared one column past the
 end; removing repeated rows emptied a one-row matrix

---
 src/core/math/matrix/Dynamic.hpp | 8 +++++---
 src/core/math/matrix/Matrix.hpp  | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 76f793c..ee782e5 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -193,7 +193,9 @@ Dynamic<T>::copy(
 template<class T>
 Dynamic<T>&
 Dynamic<T>::sortAndRemoveRepeatedRows_omp() {
-   sortRows_omp(0, nCols());
+   if (nCols() != 0) {
+      sortRows_omp(0, nCols() - 1);
+   }
    removeRepeatedSortedRows();
    return *this;
 }
@@ -201,7 +203,7 @@ Dynamic<T>::sortAndRemoveRepeatedRows_omp() {
 template<class T>
 void
 Dynamic<T>::sortAndRemoveRepeatedRows() {
-   this->sortRows(0, nCols());
+   this->sortRows();
    removeRepeatedSortedRows();
 }
 
@@ -213,7 +215,7 @@ Dynamic<T>::removeRepeatedSortedRows() {
    std::size_t nonRepeated = 0;
    std::size_t nCompared;
    if (nRows() <= 1 ) {
-      nCompared = 0;
+      return;
    } else {
       nCompared = nRows() - 1;
    }
diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index c5e5907..93971f9 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -224,7 +224,10 @@ template <class T>
 void Matrix<T>::sortRows() {
     // Orders array a with nr rows and nc columns. Ordering is performed
     // using column indicated in orCol as reference. In ascending order.
-    sortRows(0, nCols());
+    if (nCols() == 0) {
+        return;
+    }
+    sortRows(0, nCols() - 1);
 }
 
 template <class T>
-- 
2.43.0


From 02d05c2e423c1dc65a4630ff50e033feb962faed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 045/146] fix: isSymmetric read out of range for matrices that
 are not square

---
 src/core/math/matrix/Matrix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index 93971f9..4f2983e 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -424,6 +424,9 @@ bool Matrix<T>::isSquare() const {
 
 template <class T>
 bool Matrix<T>::isSymmetric() const {
+    if (!isSquare()) {
+        return false;
+    }
     for (std::size_t i = 0; i < nRows(); i++) {
         for (std::size_t j = 0; j < nRows(); j++) {
             if (val(i,j) != val(j,i)) {
-- 
2.43.0


From 07d7856d10dd7d80b55ce539399979331c75767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:36 +0000
Subject: [PATCH 046/146] fix: inverting a singular matrix ended the process
 when only the last pivot is zero

---
 src/core/math/matrix/Matrix.h   |  1 +
 src/core/math/matrix/Matrix.hpp | 14 ++++++--------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/core/math/matrix/Matrix.h b/src/core/math/matrix/Matrix.h
index 4214c72..eeb056c 100755
--- a/src/core/math/matrix/Matrix.h
+++ b/src/core/math/matrix/Matrix.h
@@ -34,6 +34,7 @@
 #   define MATRICES_ROW_MAJOR      1
 #endif
 
+#include <sstream>
 #include <vector>
 
 #include "math/Types.h"
diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index 4f2983e..9c478c7 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -85,10 +85,9 @@ T Matrix<T>::getDeterminant4x4() const {
 template <class T>
 void Matrix<T>::internal_() {
     assert(Matrix<T>::isSquare());
-    std::size_t *pivot = new std::size_t[nRows()];
-    factorizeLU_(pivot);
-    invertFactorized_(pivot);
-    delete [] pivot;
+    std::vector<std::size_t> pivot(nRows());
+    factorizeLU_(pivot.data());
+    invertFactorized_(pivot.data());
 }
 
 template<class T>
@@ -139,11 +138,10 @@ void Matrix<T>::factorizeLU_(std::size_t pivot[]) {
     }
     pivot[n-1] = n-1;
     if (val(n-1,n-1) == (T) 0.0) {
-        std::cout << "ERROR@Matrix<T>::factorizeToArray" << std::endl;
-        std::cout << "  Zero pivot on step " << n-1 << std::endl;
         printInfo();
-        assert(false);
-        exit (EXIT_FAILURE);
+        std::stringstream ss;
+        ss << "Zero pivot on step " << n-1;
+        throw std::out_of_range(ss.str());
     }
 }
 
-- 
2.43.0


From 7d7893dffaf0c6565609b8a1070cfd2a046e48a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 047/146] fix: product of a matrix that is not square and a
 vector had the size of the operand

---
 src/core/math/matrix/Static.h   | 2 +-
 src/core/math/matrix/Static.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/math/matrix/Static.h b/src/core/math/matrix/Static.h
index a97928c..58f8891 100755
--- a/src/core/math/matrix/Static.h
+++ b/src/core/math/matrix/Static.h
@@ -64,7 +64,7 @@ public:
    Static<T,ROWS,COLS>& operator*=(const T rhs);
    Static<T,ROWS,COLS>& operator/=(const T rhs);
    Static<T,ROWS,COLS> operator*(T rhs) const;
-   Vector::Cartesian<T,COLS> operator*(Vector::Cartesian<T,COLS> rhs) const;
+   Vector::Cartesian<T,ROWS> operator*(Vector::Cartesian<T,COLS> rhs) const;
    Static<T,ROWS,COLS> operator+(Static<T,ROWS,COLS> &rhs) const;
    Static<T,COLS,ROWS>& invert();
    Static<T,COLS,ROWS> transpose();
diff --git a/src/core/math/matrix/Static.hpp b/src/core/math/matrix/Static.hpp
index 78879e0..48ef541 100755
--- a/src/core/math/matrix/Static.hpp
+++ b/src/core/math/matrix/Static.hpp
@@ -243,9 +243,9 @@ Static<T,ROWS,COLS> Static<T,ROWS,COLS>::operator*(T param) const {
 }
 
 template<class T, std::size_t ROWS, std::size_t COLS>
-Vector::Cartesian<T,COLS> Static<T,ROWS,COLS>::operator*(
+Vector::Cartesian<T,ROWS> Static<T,ROWS,COLS>::operator*(
         Vector::Cartesian<T,COLS> rhs) const {
-    Vector::Cartesian<T,COLS> res;
+    Vector::Cartesian<T,ROWS> res;
     for (std::size_t i = 0; i < ROWS; i++) {
         for (std::size_t j = 0; j < COLS; j++) {
             res(i) += this->val(i,j)*rhs(j);
-- 
2.43.0


From 197e88a9ebd001959cb8eb171938ce2bdb8173d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 048/146] fix: negating a vector negated the operand as well

---
 src/core/math/vector/Cartesian.h   | 2 +-
 src/core/math/vector/Cartesian.hpp | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/math/vector/Cartesian.h b/src/core/math/vector/Cartesian.h
index b5d7bc3..692faa2 100755
--- a/src/core/math/vector/Cartesian.h
+++ b/src/core/math/vector/Cartesian.h
@@ -64,7 +64,7 @@ public:
 
     Cartesian<T,D>  operator+(const T param) const;
     Cartesian<T,D>  operator+(const Cartesian<T,D>& param) const;
-    Cartesian<T,D>& operator-();
+    Cartesian<T,D>  operator-() const;
     Cartesian<T,D>  operator-(const T param) const;
     Cartesian<T,D>  operator-(const Cartesian<T,D>& param) const;
     Cartesian<T,D>  operator*(const T param) const;
diff --git a/src/core/math/vector/Cartesian.hpp b/src/core/math/vector/Cartesian.hpp
index 7cf1cd0..6fbc830 100755
--- a/src/core/math/vector/Cartesian.hpp
+++ b/src/core/math/vector/Cartesian.hpp
@@ -189,11 +189,12 @@ Cartesian<T,D> Cartesian<T,D>::operator+(const Cartesian<T,D>& param) const {
 }
 
 template <class T, std::size_t D>
-Cartesian<T,D>& Cartesian<T,D>::operator-() {
+Cartesian<T,D> Cartesian<T,D>::operator-() const {
+    Cartesian<T,D> res;
     for (std::size_t i = 0; i < D; i++) {
-        val[i] = - val[i];
+        res.val[i] = - val[i];
     }
-    return *this;
+    return res;
 }
 
 template <class T, std::size_t D>
-- 
2.43.0


From 20e941304ca1551500b4fe837b1ae49107cb2306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 049/146] fix: spherical coordinates of the zero vector were
 not a number

---
 src/core/math/vector/Spherical.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/vector/Spherical.cpp b/src/core/math/vector/Spherical.cpp
index f6777b3..70f7a3d 100755
--- a/src/core/math/vector/Spherical.cpp
+++ b/src/core/math/vector/Spherical.cpp
@@ -42,7 +42,7 @@ Spherical::Spherical(const Real theta_, const Real phi_) {
 
 Spherical& Spherical::operator=(const CVecR3& param) {
     radius = param.norm();
-    theta = acos(param.val[2] / radius);
+    theta = (radius == 0.0) ? 0.0 : acos(param.val[2] / radius);
     phi = atan2(param.val[1], param.val[0]);
     return *this;
 }
-- 
2.43.0


From 009ca504a92a7d8c48cfb581ec36d0ab80f2f273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 050/146] fix: removing zero monomials kept the second of two
 in a row

---
 src/core/math/function/Polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/function/Polynomial.hpp b/src/core/math/function/Polynomial.hpp
index 6610c6f..30ba4e8 100755
--- a/src/core/math/function/Polynomial.hpp
+++ b/src/core/math/function/Polynomial.hpp
@@ -149,7 +149,7 @@ void Polynomial<T>::derive(std::size_t coord) {
 
 template<class T>
 void Polynomial<T>::removeZeros() {
-    for (std::size_t i = 0; i < nm_; i++)
+    for (std::size_t i = nm_; i-- > 0;)
         if (mv_[i] == 0) {
             nm_--;
             mv_.erase(mv_.begin() + i);
-- 
2.43.0


From e23b4de5041cd695cabfe33659bcd9cd1387f318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 051/146] fix: products of polynomials lost repeated powers

---
 src/core/math/function/Polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/function/Polynomial.hpp b/src/core/math/function/Polynomial.hpp
index 30ba4e8..2e11d22 100755
--- a/src/core/math/function/Polynomial.hpp
+++ b/src/core/math/function/Polynomial.hpp
@@ -274,7 +274,7 @@ Matrix::Dynamic<T> Polynomial<T>::polynomialToMatrix() const {
     Matrix::Dynamic<T>  res(maxPower() + 1, 1);
     // Copies monomials to vector positions.
     for (std::size_t i = 0; i < nm_; i++)
-        res(mp_[i][0], 0) = mv_[i];
+        res(mp_[i][0], 0) += mv_[i];
     return res;
 }
 
-- 
2.43.0


From d1d7fbd5fb5a5587219e8ffa938ad186e0b699ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 052/146] fix: polynomials of different variables compared
 equal

---
 src/core/math/function/Polynomial.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/math/function/Polynomial.hpp b/src/core/math/function/Polynomial.hpp
index 2e11d22..941d9b0 100755
--- a/src/core/math/function/Polynomial.hpp
+++ b/src/core/math/function/Polynomial.hpp
@@ -319,6 +319,7 @@ inline bool Polynomial<T>::operator ==(const Base& rhs) const {
     }
     const Polynomial<T>* rhsPol = dynamic_cast<const Polynomial<T>*>(&rhs);
     bool areEqual = true;
+    areEqual &= nv_ == rhsPol->nv_;
     areEqual &= mv_ == rhsPol->mv_;
     areEqual &= mp_ == rhsPol->mp_;
     return areEqual;
-- 
2.43.0


From 54440403600ca8c5948e16691862ee6f366d9039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:43 +0000
Subject: [PATCH 053/146] fix: interpolation read from a file added a spurious
 sample at the end and never ended on wrong data

---
 src/core/math/function/LinearInterpolation.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/core/math/function/LinearInterpolation.hpp b/src/core/math/function/LinearInterpolation.hpp
index 7149542..7813d37 100755
--- a/src/core/math/function/LinearInterpolation.hpp
+++ b/src/core/math/function/LinearInterpolation.hpp
@@ -112,12 +112,18 @@ void LinearInterpolation<S, T>::initFromFile(
                                      std::string(" does not exist"));
     }
 
-    while (!iStream.eof()) {
-        std::pair<Real, Real> value;
-        iStream >> value.first >> value.second;
-        value_.insert(value);
+    std::pair<Real, Real> value;
+    bool complete = true;
+    while (complete && iStream >> value.first) {
+        complete = !(iStream >> value.second).fail();
+        if (complete) {
+            value_.insert(value);
+        }
+    }
+    if (!complete || !iStream.eof()) {
+        throw std::ios_base::failure(std::string("Wrong data in file: ") +
+                                     file);
     }
-
     if (value_.size() == 0) {
         throw std::ios_base::failure(std::string("No data in file: ") + file);
     }
-- 
2.43.0


From 1b156de5e3facd97b002708b36f8cd02c2a09063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:43 +0000
Subject: [PATCH 054/146] fix: Fourier transform of a delayed Gaussian had the
 opposite phase

---
 src/core/math/function/Gaussian.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/function/Gaussian.cpp b/src/core/math/function/Gaussian.cpp
index bf0c303..2f60df3 100755
--- a/src/core/math/function/Gaussian.cpp
+++ b/src/core/math/function/Gaussian.cpp
@@ -84,7 +84,7 @@ Real Gaussian::getFreq() const {
 
 std::complex<Real> Gaussian::getFourier(const Real freq) const {
     const Real pi2 = (Real) 2.0 * Constants::pi;
-    const std::complex<Real> phase(0.0, getDelay() *pi2*freq);
+    const std::complex<Real> phase(0.0, - getDelay() *pi2*freq);
     const std::complex<Real> phaseShift = std::exp(phase);
     return getSpread() * std::sqrt(pi2)
             * phaseShift
-- 
2.43.0


From 19b47b805c85acd4232bf17e8be9c35a67a5c9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 055/146] fix: Fourier transform of a modulated Gaussian
 ignored the carrier

---
 src/core/math/function/Gaussian.cpp | 6 ++++++
 src/core/math/function/Gaussian.h   | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/core/math/function/Gaussian.cpp b/src/core/math/function/Gaussian.cpp
index 2f60df3..8291dd7 100755
--- a/src/core/math/function/Gaussian.cpp
+++ b/src/core/math/function/Gaussian.cpp
@@ -83,6 +83,12 @@ Real Gaussian::getFreq() const {
 }
 
 std::complex<Real> Gaussian::getFourier(const Real freq) const {
+    // The carrier moves the spectrum of the envelope to both +-getFreq().
+    return (Real) 0.5 * (getEnvelopeFourier_(freq - getFreq()) +
+                         getEnvelopeFourier_(freq + getFreq()));
+}
+
+std::complex<Real> Gaussian::getEnvelopeFourier_(const Real freq) const {
     const Real pi2 = (Real) 2.0 * Constants::pi;
     const std::complex<Real> phase(0.0, - getDelay() *pi2*freq);
     const std::complex<Real> phaseShift = std::exp(phase);
diff --git a/src/core/math/function/Gaussian.h b/src/core/math/function/Gaussian.h
index 9eaa331..a2d40f9 100755
--- a/src/core/math/function/Gaussian.h
+++ b/src/core/math/function/Gaussian.h
@@ -59,6 +59,8 @@ private:
     Real spread_;
     Real delay_;
     Real freq_;
+
+    std::complex<Real> getEnvelopeFourier_(const Real freq) const;
 };
 
 inline Gaussian Gaussian::buildFromMaximumFrequency(
-- 
2.43.0


From 7e705d69fac3563745fefe56047c545201040fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 056/146] fix: setting the description of a parser never
 returned

---
 src/core/argument/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 1b1177d..32e538c 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -47,7 +47,7 @@ Parser& Parser::usage(const std::string& usage) {
 }
 
 Parser& Parser::description(const std::string& desc) {
-    description(desc);
+    Group::description(desc);
     return *this;
 }
 
-- 
2.43.0


From fc301ba3374a80f473c3f9fe9259e59e10da81e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 057/146] fix: long options given as --name=value were looked
 for with the sign and part of the value

---
 src/core/argument/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 32e538c..1c802d9 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -222,7 +222,7 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
         } else if (getArgType_(*it) == ArgType::LongOpt) {
             std::size_t posEq = it->find("=");
             if (posEq != std::string::npos) {
-                arg.first  = it->substr(2, posEq);
+                arg.first  = it->substr(2, posEq-2);
                 arg.second.clear();
                 if (!it->substr(posEq+1).empty()) {
                     arg.second.push_back(it->substr(posEq+1));
-- 
2.43.0


From 8f5a167c0f3174707652f86c30dec93f86a1247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 058/146] fix: a second line given to a parser was read as if
 the arguments of the first had been given

---
 src/core/argument/Group.cpp     | 6 +++++-
 src/core/argument/GroupBase.cpp | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/argument/Group.cpp b/src/core/argument/Group.cpp
index e38195c..a182636 100755
--- a/src/core/argument/Group.cpp
+++ b/src/core/argument/Group.cpp
@@ -103,13 +103,17 @@ MEGroup& Group::addMutuallyExclusiveGroup() {
 }
 
 void Group::parsePreprocess(Object& out) {
-    out.setObject();
+    GroupBase::parsePreprocess(out);
+    lastPosParsed_ = 0;
     for (std::size_t i = 0; i < child_.size(); i++) {
         if (!child_[i]->isMutuallyExclusive()) {
             Object aux;
             aux.setObject();
             child_[i]->parsePreprocess(aux);
             out.addMember(child_[i]->getName(), std::move(aux));
+        } else {
+            Object aux;
+            child_[i]->parsePreprocess(aux);
         }
     }
 }
diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index a88d337..8f66db4 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -151,6 +151,11 @@ std::vector<std::string> GroupBase::possibleOptions(const std::string& id,
 
 void GroupBase::parsePreprocess(Object& out) {
     out.setObject();
+    lastPosParsed_ = 0;
+    for (std::map<std::string, bool>::iterator
+         it = optionParsed_.begin(); it != optionParsed_.end(); ++it) {
+        it->second = false;
+    }
 }
 
 void GroupBase::parsePosition(Object& out,
-- 
2.43.0


From 15e0d2b95c9b6fd48044568fdb1da2031348c373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 059/146] fix: values that no position takes were neither
 refused nor returned

---
 src/core/argument/Parser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 1c802d9..0233b68 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -361,16 +361,16 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
                           unresolvedOptions[i].begin(),
                           unresolvedOptions[i].end());
     }
-    for (std::size_t i = 0; i < rem.size(); i++) {
-        if (!rem[i].empty()) {
+    for (std::size_t i = 0; i < positions.size(); i++) {
+        if (!positions[i].empty()) {
             res.second.push_back("--");
             break;
         }
     }
-    for (std::size_t i = 0; i < rem.size(); i++) {
-        input_.insert(input_.end(),
-                      rem[i].begin(),
-                      rem[i].end());
+    for (std::size_t i = 0; i < positions.size(); i++) {
+        res.second.insert(res.second.end(),
+                          positions[i].begin(),
+                          positions[i].end());
     }
     try {
         parsePostprocess(res.first);
-- 
2.43.0


From 731e6a8e297084e56ea09e229fa5cba71ba2ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 060/146] fix: positions that were given took their default or
 were reported missing

---
 src/core/argument/GroupBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index 8f66db4..ff87955 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -201,7 +201,7 @@ void GroupBase::parsePostprocess(Object& out) {
             throw Error::Group::Required(argsAll);
         }
     } else {
-        for (std::size_t i = 0; i < positions_.size(); i++) {
+        for (std::size_t i = lastPosParsed_; i < positions_.size(); i++) {
             std::string optName = positions_[i]->getName();
             Object aux;
             positions_[i]->notParsed(aux);
-- 
2.43.0


From 8f6bca99a0497ed15b3595ea8a037940c3d8d9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 061/146] fix: refusing a repeated argument forgot the one that
 was already there

---
 src/core/argument/GroupBase.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index ff87955..e2f73f6 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -250,18 +250,21 @@ OptionBase& GroupBase::addOption(OptionBase* arg) {
 }
 
 void GroupBase::addPositionProcess(GroupBase* child, PositionBase* pos) {
+    bool nameInserted = false;
     try {
         if (child == nullptr) {
             insertName(pos->getName());
+            nameInserted = true;
             positions_.push_back(pos);
         } else if (child->isMutuallyExclusive()) {
             insertName(pos->getName());
+            nameInserted = true;
         }
         if (parent_ != nullptr) {
             parent_->addPositionProcess(this, pos);
         }
     } catch (...) {
-        if (names_.count(pos->getName()) != 0) {
+        if (nameInserted) {
             names_.erase(pos->getName());
         }
         if ((child == nullptr) && !positions_.empty()) {
@@ -280,15 +283,19 @@ void GroupBase::addOptionProcess(GroupBase* child, OptionBase* opt) {
     } else {
         name = opt->getLongIdentifier();
     }
+    bool nameInserted = false, shortInserted = false, longInserted = false;
     try {
         if (opt->hasShortIdentifier()) {
             insertShortOpt(opt->getShortIdentifier(), name);
+            shortInserted = true;
         }
         if (opt->hasLongIdentifier()) {
             insertLongOpt(opt->getLongIdentifier(), name);
+            longInserted = true;
         }
         if (child == nullptr) {
             insertName(opt->getName());
+            nameInserted = true;
             if (optionName_.count(name) == 0) {
                 options_.push_back(opt);
                 optionName_[name] = opt;
@@ -298,20 +305,19 @@ void GroupBase::addOptionProcess(GroupBase* child, OptionBase* opt) {
             }
         } else if (child->isMutuallyExclusive()) {
             insertName(opt->getName());
+            nameInserted = true;
         }
         if (parent_ != nullptr) {
             parent_->addOptionProcess(this, opt);
         }
     } catch (...) {
-        if (names_.count(opt->getName()) != 0) {
+        if (nameInserted) {
             names_.erase(opt->getName());
         }
-        if (opt->hasShortIdentifier() &&
-            (shortOpts_.count(opt->getShortIdentifier()))) {
+        if (shortInserted) {
             shortOpts_.erase(opt->getShortIdentifier());
         }
-        if (opt->hasLongIdentifier() &&
-            (longOpts_.count(opt->getLongIdentifier()))) {
+        if (longInserted) {
             longOpts_.erase(opt->getLongIdentifier());
         }
         if ((child == nullptr) && !options_.empty()) {
-- 
2.43.0


From 01df1265679dc2fc255fbc66c45653c60842428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 062/146] fix: help of arguments did not replace program,
 default and choices

---
 src/core/argument/Formatter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index d9f1009..40aaeec 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -228,6 +228,7 @@ std::string Formatter::replaceChoices_(
         res += aux.substr(0, aux.find(CHOICES)) + choicesStr;
         aux  = aux.substr(aux.find(CHOICES) + CHOICES.size());
     }
+    res += aux;
     return res;
 }
 
@@ -359,10 +360,9 @@ void Formatter::printArg_(const std::string& arg,
         } else {
             std::cout << std::string(tab-arg.size(),' ');
         }
-        replaceProg_(help);
-        replaceDefault_(help, def);
-        replaceChoices_(help, choices);
-        printParagraph_(help);
+        printParagraph_(
+            replaceChoices_(replaceDefault_(replaceProg_(help), def),
+                            choices));
     } else {
         std::cout << std::endl;
     }
-- 
2.43.0


From cbb9594f60127a2b0d2926fc7a1061d94b16eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 063/146] fix: error for a value that is not among the choices
 had no text

---
 src/core/argument/Value.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/argument/Value.h b/src/core/argument/Value.h
index 4b58b83..27231aa 100755
--- a/src/core/argument/Value.h
+++ b/src/core/argument/Value.h
@@ -67,6 +67,7 @@ public:
             }
         }
         aux << ")";
+        str_ = aux.str();
     }
     virtual ~NotChoices() throw() {}
 
-- 
2.43.0


From 84604c2706b5ac98d8968edeacb035f4a9c78336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 064/146] fix: a position of many values took only the first
 one

---
 src/core/argument/MultiPosition.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/core/argument/MultiPosition.h b/src/core/argument/MultiPosition.h
index d882dbd..d5a4414 100755
--- a/src/core/argument/MultiPosition.h
+++ b/src/core/argument/MultiPosition.h
@@ -36,6 +36,26 @@ public:
     MultiPosition(const std::string&   name) : Argument(name) {}
     MultiPosition(const MultiPosition& rhs)  : Argument(rhs ) {}
     virtual ~MultiPosition() {}
+
+    // Takes values until there are none left.
+    void parse(Object& out,
+               std::vector<std::list<std::string>>& output,
+               std::vector<std::list<std::string>>& input) const {
+        out.setArray();
+        output.assign(input.size(), std::list<std::string>());
+        for (std::size_t i = 0; i < input.size(); i++) {
+            std::list<std::string> values = input[i];
+            bool taken = !values.empty();
+            while (taken) {
+                std::list<std::string> single = values;
+                Object aux;
+                this->parseSingle(aux, output[i], single);
+                out.addValue(std::move(aux));
+                taken = (!output[i].empty() && output[i] != values);
+                values = output[i];
+            }
+        }
+    }
 };
 
 } /* namespace Argument */
-- 
2.43.0


From b2e2f723c5685b3b8d90479bfd17052bc2b233d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 065/146] fix: a value whose rest repeats its beginning was
 lost

---
 src/core/argument/StringParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/StringParser.h b/src/core/argument/StringParser.h
index 1f2ea16..6eabce6 100755
--- a/src/core/argument/StringParser.h
+++ b/src/core/argument/StringParser.h
@@ -146,7 +146,7 @@ struct Details {
                     trim(used);
                     trim(remain);
                     if(!remain.empty()) {
-                        used = used.substr(0, used.find(remain));
+                        used = used.substr(0, used.rfind(remain));
                         inlist.push_front(remain);
                         trim(used);
                     }
-- 
2.43.0


From f7780b7ff497560b072fa871ba60f4e46cc732b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 066/146] fix: lists of values joined what one value left with
 the next value

---
 src/core/argument/StringParser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/argument/StringParser.h b/src/core/argument/StringParser.h
index 6eabce6..18cfb42 100755
--- a/src/core/argument/StringParser.h
+++ b/src/core/argument/StringParser.h
@@ -184,14 +184,14 @@ struct Details {
                     trim(remain);
                     rem.clear();
                     if(!remain.empty()) {
-                        used = used.substr(0, used.find(remain));
-                        rem.push_front(remain);
+                        used = used.substr(0, used.rfind(remain));
+                        inlist.push_front(remain);
                         trim(used);
                     }
                     if(!used.empty()) {
                         outlist.push_back(used);
                     }
-                    aux1 = remain;
+                    aux1.clear();
                 } else {
                     aux1 += " ";
                 }
-- 
2.43.0


From e64d3b2bb4fc46752b3238bf5cd780df5cd53011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 067/146] fix: erasing a member of a settings tree moved the
 names of the ones after it

---
 src/core/argument/Object.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 0706994..3914531 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -214,7 +214,10 @@ public:
         if (existsName(name)) {
             objMembers_ .erase(objMembers_.begin() + nameMembers_.at(name));
             objName_    .erase(objName_   .begin() + nameMembers_.at(name));
-            nameMembers_.erase(name);
+            nameMembers_.clear();
+            for (std::size_t i = 0; i < objName_.size(); i++) {
+                nameMembers_[objName_[i]] = i;
+            }
         }
         return *this;
     }
-- 
2.43.0


From 7142ed1e208ac0de35c643116122f9a38ff32bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 068/146] fix: the least integer was refused as an overflow

---
 src/core/argument/Object.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 3914531..7455803 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -271,7 +271,8 @@ public:
     bool     isReal  () const          { return is <Real>();          }
     Int     getInt   () const          { 
 		Real val = getReal();
-		if (std::numeric_limits<Int>::max() < std::abs(val)) {
+		if (val < std::numeric_limits<Int>::min() ||
+			val > std::numeric_limits<Int>::max()) {
 			std::stringstream msg;
 			msg << "Integer value overflow: " << val;
 			throw std::logic_error(msg.str());
-- 
2.43.0


From bc7721f87380fdafd6fe5c405c05e635b72ff88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 069/146] fix: real numbers lost their digits when stored in a
 settings tree

---
 src/core/argument/Object.h   |  5 +++++
 src/core/argument/Object.hpp | 32 ++++++++++++++++++++++++++------
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 7455803..1f5111b 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -435,6 +435,11 @@ private:
     void set_(const T&);
     template<typename T1, typename T2, typename... T>
     void set_(const T1&, const T2&, const T&...);
+
+    template<typename T>
+    static std::string toStr_(const T&, const std::false_type&);
+    template<typename T>
+    static std::string toStr_(const T&, const std::true_type&);
 };
 
 namespace Error {
diff --git a/src/core/argument/Object.hpp b/src/core/argument/Object.hpp
index adfc622..2215c94 100755
--- a/src/core/argument/Object.hpp
+++ b/src/core/argument/Object.hpp
@@ -82,18 +82,38 @@ Object& Object::set(const T&... params) {
 
 template<typename T>
 void Object::set_(const T& param) {
-    std::stringstream aux;
-    aux << param;
-    strValue_.push_back(aux.str());
+    strValue_.push_back(toStr_(param, std::is_floating_point<T>()));
 }
 
 template<typename T1, typename T2, typename... T>
 void Object::set_(const T1& param1, const T2& param2, const T&... params) {
-    std::stringstream aux;
-    aux << param1;
-    strValue_.push_back(aux.str());
+    strValue_.push_back(toStr_(param1, std::is_floating_point<T1>()));
     set_(param2, params...);
 }
 
+template<typename T>
+std::string Object::toStr_(const T& param, const std::false_type&) {
+    std::stringstream aux;
+    aux << param;
+    return aux.str();
+}
+
+template<typename T>
+std::string Object::toStr_(const T& param, const std::true_type&) {
+    // Takes the first precision which reads back as the same number.
+    std::string res;
+    for (int prec = 6; prec <= std::numeric_limits<T>::max_digits10; prec++) {
+        std::stringstream aux;
+        aux.precision(prec);
+        aux << param;
+        res = aux.str();
+        T back;
+        if ((aux >> back) && (back == param)) {
+            break;
+        }
+    }
+    return res;
+}
+
 } /* namespace Objects */
 } /* namespace SEMBA */
-- 
2.43.0


From eccb5b6cf0bee8f31d36de422c42326c3a9594fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 070/146] fix: setting a tree to a part of itself lost or
 corrupted it

---
 src/core/argument/Object.h   | 33 +++++++++++++--------------------
 src/core/argument/Object.hpp |  7 ++++---
 2 files changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 1f5111b..17aaab6 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -100,11 +100,13 @@ public:
         if (this == &rhs) {
             return *this;
         }
-        copy_(rhs);
+        Object aux(rhs); // rhs can belong to this.
+        move_(std::move(aux));
         return *this;
     }
     Object& operator =(Object&& rhs) {
-        move_(std::move(rhs));
+        Object aux(std::move(rhs)); // rhs can belong to this.
+        move_(std::move(aux));
         return *this;
     }
     template<typename... T>
@@ -191,23 +193,17 @@ public:
         return objMembers_.at(nameMembers_.at(name));
     }
     Object&   addMember(const std::string& name, const Object& val) {
-        setObject();
-        if (nameMembers_.count(name) == 0) {
-            nameMembers_[name] = objMembers_.size();
-            objMembers_.push_back(Object());
-            objName_   .push_back(name);
-        }
-        objMembers_.at(nameMembers_.at(name)) = val;
-        return *this;
+        return addMember(name, Object(val));
     }
     Object&   addMember(const std::string& name, Object&& val) {
+        Object aux(std::move(val)); // val can belong to this.
         setObject();
         if (nameMembers_.count(name) == 0) {
             nameMembers_[name] = objMembers_.size();
             objMembers_.push_back(Object());
             objName_   .push_back(name);
         }
-        objMembers_.at(nameMembers_.at(name)) = std::move(val);
+        objMembers_.at(nameMembers_.at(name)) = std::move(aux);
         return *this;
     }
     Object& eraseMember(const std::string& name) {
@@ -242,13 +238,12 @@ public:
         return objMembers_.at(i);
     }
     Object&   addValue(const Object& val) {
-        setArray();
-        objMembers_.push_back(val);
-        return *this;
+        return addValue(Object(val));
     }
     Object&   addValue(Object&& val) {
+        Object aux(std::move(val)); // val can belong to this.
         setArray();
-        objMembers_.push_back(std::move(val));
+        objMembers_.push_back(std::move(aux));
         return *this;
     }
     Object& eraseValue(const std::size_t& i) {
@@ -297,10 +292,7 @@ public:
         return res;
     }
     Object&     setString(const std::string& str) {
-        clear_();
-        type_ = Type::String;
-        strValue_.push_back(str);
-        return *this;
+        return setGenericString(std::list<std::string>(1, str));
     }
     
     const std::list<std::string>& getGenericString() const {
@@ -308,9 +300,10 @@ public:
     }
     Object&                       setGenericString(
             const std::list<std::string>& str) {
+        std::list<std::string> aux(str); // str can belong to this.
         clear_();
         type_ = Type::String;
-        strValue_ = str;
+        strValue_.swap(aux);
         return *this;
     }
 
diff --git a/src/core/argument/Object.hpp b/src/core/argument/Object.hpp
index 2215c94..630b49d 100755
--- a/src/core/argument/Object.hpp
+++ b/src/core/argument/Object.hpp
@@ -74,9 +74,10 @@ std::tuple<T1, T2, T3, T...> Object::get() const {
 
 template<typename ... T>
 Object& Object::set(const T&... params) {
-    clear_();
-    set_(params...);
-    type_ = Type::String;
+    Object aux; // params can belong to this.
+    aux.set_(params...);
+    aux.type_ = Type::String;
+    move_(std::move(aux));
     return *this;
 }
 
-- 
2.43.0


From 77f9b973c522a0676eb35a406d1122afd63dce29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 071/146] fix: a missing path was taken for a folder depending
 on stale memory

---
 src/core/filesystem/Project.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 8549bd7..58509f7 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -285,8 +285,7 @@ bool Project::checkExistance_(const std::string& fn) const {
     }
 #else
     struct stat sb;
-    exists = (stat(fn.c_str(), &sb) == 0);
-    exists &= S_ISDIR(sb.st_mode);
+    exists = (stat(fn.c_str(), &sb) == 0) && S_ISDIR(sb.st_mode);
 #endif
     return exists;
 }
@@ -315,8 +314,7 @@ bool Project::isFolder() const {
     return false;
 #else
     struct stat sb;
-    stat(c_str(), &sb);
-    return S_ISDIR(sb.st_mode);
+    return (stat(c_str(), &sb) == 0) && S_ISDIR(sb.st_mode);
 #endif
 }
 
-- 
2.43.0


From 831cb21bd4a9c3abcaa7dd1dec22e5c2b730bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 072/146] fix: asking for the base name of a folder cut its
 path

---
 src/core/filesystem/Project.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 58509f7..7540a0d 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -129,7 +129,10 @@ std::string Project::getBasename() const {
     _splitpath(getFilename().c_str(), nullptr, nullptr, fname, ext);
     std::string res = std::string(fname) + ext;
 #else
-    std::string res(basename(const_cast<char*>(c_str())));
+    char *cstr = new char[length() + 1];
+    strcpy(cstr, c_str());
+    std::string res(basename(cstr));
+    delete [] cstr;
 #endif
     return res;
 }
-- 
2.43.0


From de14f040ad9fbcd7b68eecc3003ef2e1b37bcd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 073/146] fix: a path without extension was its own extension,
 and dots of folders started one

---
 src/core/filesystem/Project.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 7540a0d..cd00e38 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -339,14 +339,8 @@ void Project::exec(const std::string arguments) const {
 }
 
 std::string Project::getExtension() const {
-    size_t pos = rfind(".");
-    if (pos == std::string::npos) {
-        return *this;
-    }
-    if (pos == 0) {
-        return *this;
-    }
-    return this->substr(pos, std::string::npos);
+    std::string base = getBasename();
+    return base.substr(removeExtension_(base).length());
 }
 
 std::string Project::getFullPath() const {
-- 
2.43.0


From b32dc9bf2bbeb1614ff5af2829b8f323718ab04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 074/146] fix: a path relative to a folder it is not in was
 mangled

---
 src/core/filesystem/Project.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index cd00e38..0f77cb4 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -301,9 +301,16 @@ Project Project::relativeTo(const Project& rhs) const {
         rhsFolder = rhs.getFolder();
     }
     std::string name = getFilename();
-    std::string res = name.substr(name.find(rhsFolder) + rhsFolder.length(),
-                                  name.length());
-    return Project(res);
+    if (name == rhsFolder) {
+        return Project();
+    }
+    if (rhsFolder.find_last_of("/\\") != rhsFolder.length() - 1) {
+        rhsFolder += "/";
+    }
+    if (name.compare(0, rhsFolder.length(), rhsFolder) != 0) {
+        return *this;
+    }
+    return Project(name.substr(rhsFolder.length()));
 }
 
 bool Project::isFolder() const {
-- 
2.43.0


From 05eef5b65244b91067836bd539ab754c3c8e5552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 075/146] fix: the full path of a missing file was built from a
 null pointer, others leaked

---
 src/core/filesystem/Project.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 0f77cb4..5098832 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -21,6 +21,7 @@
 
 #include "Project.h"
 
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <stdexcept>
@@ -353,7 +354,12 @@ std::string Project::getExtension() const {
 std::string Project::getFullPath() const {
     std::string res;
 #ifndef _WIN32
-    res = (const char*) realpath(this->getFilename().c_str(), nullptr);
+    char* path = realpath(this->getFilename().c_str(), nullptr);
+    if (path == nullptr) {
+        throw std::ios_base::failure("Can not resolve path: " + *this);
+    }
+    res = path;
+    free(path);
     if (Project(res).isFolder()) {
         res += "/";
     }
-- 
2.43.0


From 064232bfd35e3886c221d3218456a703fbac2019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 076/146] fix: the full path of the root folder had two slashes

---
 src/core/filesystem/Project.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 5098832..8513ae5 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -360,7 +360,7 @@ std::string Project::getFullPath() const {
     }
     res = path;
     free(path);
-    if (Project(res).isFolder()) {
+    if (Project(res).isFolder() && res != "/") {
         res += "/";
     }
 #else
-- 
2.43.0


From 26f45af4372a21513cfca4022382fb147456c682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 077/146] fix: deleting a folder whose name the shell
 interprets deleted something else

---
 src/core/filesystem/Project.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 8513ae5..ff1a8c0 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -21,6 +21,7 @@
 
 #include "Project.h"
 
+#include <cstdio>
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
@@ -28,6 +29,7 @@
 
 #ifndef _WIN32
 #include <dirent.h>
+#include <ftw.h>
 #include <libgen.h>
 #include <sys/stat.h>
 #else
@@ -38,6 +40,14 @@
 namespace SEMBA {
 namespace FileSystem {
 
+#ifndef _WIN32
+namespace {
+int removeEntry(const char* path, const struct stat*, int, struct FTW*) {
+    return remove(path);
+}
+}
+#endif
+
 Project::Project() {
 
 }
@@ -266,12 +276,16 @@ void Project::deleteDirIfExists_(const std::string& directory) const {
 
     // Deletes if exists.
     if (checkExistance_(directory)) {
-        std::string command = "rm -r ";
-        command += directory;
-        if (system(command.c_str())) {
+        std::string path = directory;
+        while (path.length() > 1 && path[path.length() - 1] == '/') {
+            path.erase(path.length() - 1);
+        }
+        std::string name = path.substr(path.rfind('/') + 1);
+        if (name.empty() || name == "." || name == ".." ||
+            nftw(path.c_str(), removeEntry, 16, FTW_DEPTH | FTW_PHYS)) {
             std::cout << std::endl << "WARNING @ Project: ";
-            std::cout << "System command failed to execute " << command
-                      << std::endl;
+            std::cout << "Dir " << directory
+                      << " deletion failed" << std::endl;
         }
     }
 #endif
-- 
2.43.0


From 589baa765c611d8d940f503e9304cf2af6f381a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 078/146] fix: executing a file whose name the shell interprets
 executed something else

---
 src/core/filesystem/Project.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index ff1a8c0..a3af96f 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -356,7 +356,19 @@ void Project::exec(const std::string arguments) const {
     if (!canExecute()) {
         throw std::ios_base::failure("Can not execute " + *this);
     }
+#ifdef _WIN32
     std::string cmd = getFilename() + " " + arguments;
+#else
+    std::string cmd = "'";
+    for (std::size_t i = 0; i < length(); i++) {
+        if (at(i) == '\'') {
+            cmd += "'\\''";
+        } else {
+            cmd += at(i);
+        }
+    }
+    cmd += "' " + arguments;
+#endif
     system(cmd.c_str());
 }
 
-- 
2.43.0


From 4b249adeed5ea8a7833d582e2388b74d6e297373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 079/146] fix: a file that could not be opened was not reported

---
 src/core/filesystem/Project.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index a3af96f..4e932e2 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -231,13 +231,12 @@ void Project::openFile(std::ofstream& file,
 void Project::openFile_(const std::string& fileName,
                         std::ofstream& file,
                         const bool& textMode) const {
-    try {
-        if (textMode) {
-            file.open(fileName.c_str());
-        } else {
-            file.open(fileName.c_str(), std::ios::binary);
-        }
-    } catch(const std::exception&) {
+    if (textMode) {
+        file.open(fileName.c_str());
+    } else {
+        file.open(fileName.c_str(), std::ios::binary);
+    }
+    if (!file) {
         throw std::ios_base::failure(fileName + std::string(" not exists"));
     }
 }
@@ -344,9 +343,8 @@ bool Project::isFolder() const {
 }
 
 void Project::openAsInput(std::ifstream& file) const {
-    try {
-        file.open(this->c_str());
-    } catch(const std::exception&) {
+    file.open(this->c_str());
+    if (!file) {
         throw std::ios_base::failure(std::string("File can't be opened: ") +
                                      *this);
     }
-- 
2.43.0


From c3b004ff3fdbbd7513fbacc809466ea54911a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 080/146] fix: executing a file of the current folder ran a
 command of that name instead

---
 src/core/filesystem/Project.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 4e932e2..6ed10f4 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -357,7 +357,7 @@ void Project::exec(const std::string arguments) const {
 #ifdef _WIN32
     std::string cmd = getFilename() + " " + arguments;
 #else
-    std::string cmd = "'";
+    std::string cmd = (find('/') == npos) ? "'./" : "'";
     for (std::size_t i = 0; i < length(); i++) {
         if (at(i) == '\'') {
             cmd += "'\\''";
-- 
2.43.0


From 958150da0dab87ab66a844410859a5fe93394e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 081/146] fix: a folder was reported as an executable file

---
 src/core/filesystem/Project.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 6ed10f4..fcc6dc8 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -122,7 +122,7 @@ bool Project::canExecute() const {
     if (stat(c_str(), &st) < 0) {
         return false;
     }
-    if ((st.st_mode & S_IEXEC) != 0) {
+    if (!S_ISDIR(st.st_mode) && (st.st_mode & S_IEXEC) != 0) {
         return true;
     }
     return false;
-- 
2.43.0


From 2853ed1d406384495828fa7bd56c3ee2bb85915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 082/146] fix: a long working folder was not taken

---
 src/core/filesystem/Project.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index fcc6dc8..2de3dec 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -400,9 +400,10 @@ std::string Project::getFullPath() const {
 
 void Project::setToCurrentWorkingDir() {
 #ifndef _WIN32
-    char cwd[1024];
-    if (getcwd(cwd, sizeof(cwd)) != nullptr) {
+    char* cwd = getcwd(nullptr, 0);
+    if (cwd != nullptr) {
         std::string cwdStr = cwd;
+        free(cwd);
         *this = cwdStr;
     }
 #else
-- 
2.43.0


From 3fececaf4cc0f99b076dd2c40cde50296bcd8508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 083/146] fix: terminations could not be set all at once

---
 src/core/geometry/BoundTerminations.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/geometry/BoundTerminations.hpp b/src/core/geometry/BoundTerminations.hpp
index 068b77c..2f34d38 100755
--- a/src/core/geometry/BoundTerminations.hpp
+++ b/src/core/geometry/BoundTerminations.hpp
@@ -80,9 +80,7 @@ void BoundTerminations<D>::setBounds(
         const std::array<std::array<const Bound*, 2>, D>& bounds) {
     for (std::size_t d = 0; d < D; d++) {
         for (std::size_t p = 0; p < 2; p++) {
-            if (bounds[d][p] != nullptr) {
-                bounds_[d][p] = bounds->getSharedPtr();
-            }
+            setBound(d, p, bounds[d][p]);
         }
     }
 }
-- 
2.43.0


From b77ef8f34d229c9f3681c6323f0cc064d1f90ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 084/146] fix: whether to snap was not initialised

---
 src/mesher/Options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesher/Options.cpp b/src/mesher/Options.cpp
index aec0797..fde5c11 100755
--- a/src/mesher/Options.cpp
+++ b/src/mesher/Options.cpp
@@ -34,6 +34,7 @@ namespace Mesher {
 Options::Options() {
     mesher_ = Mesher::DMesher;
     mode_ = Mode::structured;
+    snap_ = false;
     forbiddenLength_ = 1.0;
     subgridPoints_ = 0;
     scalingFactor_ = 1.0;
-- 
2.43.0


From e1590d9273aa5d5613b90dc211f224add6eaa3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 085/146] fix: the step to resume from was rounded down to the
 one before or lost

---
 src/solver/Options.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/Options.cpp b/src/solver/Options.cpp
index cb0eec1..5026c05 100755
--- a/src/solver/Options.cpp
+++ b/src/solver/Options.cpp
@@ -202,7 +202,9 @@ std::string Options::toArgsStr() const {
         ss << " -cfl " << getCFL();
     }
     if (isResumeSimulation()) {
-        if (getTimeStep() != 0.0) {
+        if (endingCondition_ == EndingCondition::numberOfTimeSteps) {
+            ss << " -r " << getNumberOfTimeSteps();
+        } else if (getTimeStep() != 0.0) {
             ss << " -r " << (std::size_t)floor(getFinalTime() / getTimeStep());
         } else {
             ss << " -r " << (std::size_t)floor(getFinalTime());
-- 
2.43.0


From b65048f510968111ea59b40773a6af2b4d08846d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 086/146] fix: a negative number of time steps became a huge
 one

---
 src/solver/Options.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/solver/Options.cpp b/src/solver/Options.cpp
index 5026c05..d1629b1 100755
--- a/src/solver/Options.cpp
+++ b/src/solver/Options.cpp
@@ -51,7 +51,11 @@ void Options::set(const Settings& opts) {
         setFinalTime(opts("finalTime").getReal());
     }
     if (opts.existsName(          "numberOfTimeSteps")) {
-        setNumberOfTimeSteps(opts("numberOfTimeSteps").getInt());
+        Math::Int steps = opts("numberOfTimeSteps").getInt();
+        if (steps < 0) {
+            throw std::logic_error("Number of time steps can not be negative");
+        }
+        setNumberOfTimeSteps(steps);
     }
     if (opts.existsName( "timeStep")) {
         setTimeStep(opts("timeStep").getReal());
-- 
2.43.0


From c12feb950b25737c4d5b6ff2fdc3350b72ee91f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 087/146] fix: a magnetic bulk current was read as an electric
 one

---
 src/core/outputRequest/BulkCurrent.cpp | 5 +++--
 src/core/outputRequest/BulkCurrent.h   | 3 ++-
 src/parser/json/Parser.cpp             | 6 +++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/outputRequest/BulkCurrent.cpp b/src/core/outputRequest/BulkCurrent.cpp
index 74a71a4..1fe13d9 100755
--- a/src/core/outputRequest/BulkCurrent.cpp
+++ b/src/core/outputRequest/BulkCurrent.cpp
@@ -29,8 +29,9 @@ BulkCurrent::BulkCurrent(
         const std::string& name,
         const Geometry::Element::Group<const Geometry::Elem>& elem,
         const Math::Constants::CartesianAxis& dir,
-        const Math::UInt& skip)
-:   SEMBA::OutputRequest::Base(bulkCurrentElectric, name, domain),
+        const Math::UInt& skip,
+        const Type type)
+:   SEMBA::OutputRequest::Base(type, name, domain),
     Geometry::Element::Group<const Geometry::Elem>(elem) {
 
     dir_ = dir;
diff --git a/src/core/outputRequest/BulkCurrent.h b/src/core/outputRequest/BulkCurrent.h
index bf7be2d..1dfe936 100755
--- a/src/core/outputRequest/BulkCurrent.h
+++ b/src/core/outputRequest/BulkCurrent.h
@@ -33,7 +33,8 @@ public:
                 const std::string& name,
                 const Geometry::Element::Group<const Geometry::Elem>& box,
                 const Math::Constants::CartesianAxis& dir,
-                const Math::UInt& skip);
+                const Math::UInt& skip,
+                const Type type = bulkCurrentElectric);
     BulkCurrent(const BulkCurrent& rhs);
     virtual ~BulkCurrent();
 
diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 8bac27e..c91934f 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -392,18 +392,18 @@ OutputRequest::Base* Parser::readOutputRequest(
 			return new OutputRequest::BulkCurrent(domain, name,
 				boxToElemGroup(mesh, j.at("box").get<std::string>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		} else if (gidOutputType.compare("OutRq_on_point") == 0) {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readCoordIdAsNodes(mesh, j.at("elemIds").get<json>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		} else {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readElemIdsAsGroupOf<const Geometry::Elem>(
 					mesh, j.at("elemIds").get<json>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		}
 	}
 
-- 
2.43.0


From 7a08af5803314694fe2d41b07c9a647df2a5ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 088/146] fix: only one solid of an STL file was read,
 malformed facets were read out of bounds

---
 src/parser/stl/Parser.cpp | 125 ++++++++++++++++++++++++--------------
 1 file changed, 79 insertions(+), 46 deletions(-)

diff --git a/src/parser/stl/Parser.cpp b/src/parser/stl/Parser.cpp
index ef2a5af..ec794e0 100755
--- a/src/parser/stl/Parser.cpp
+++ b/src/parser/stl/Parser.cpp
@@ -21,10 +21,42 @@
 
 #include "Parser.h"
 
+#include <sstream>
+#include <stdexcept>
+
 namespace SEMBA {
 namespace Parser {
 namespace STL {
 
+namespace {
+
+std::string readLabel(std::istream& stl) {
+    std::string res;
+    if (!(stl >> res)) {
+        throw std::logic_error("STL: unexpected end of file.");
+    }
+    return res;
+}
+
+void expect(std::istream& stl, const std::string& label) {
+    std::string found = readLabel(stl);
+    if (found != label) {
+        throw std::logic_error("STL: " + label + " was expected, found: "
+                + found);
+    }
+}
+
+Math::Real readNumber(std::istream& stl) {
+    std::istringstream label(readLabel(stl));
+    Math::Real res;
+    if (!(label >> res) || label.peek() != std::istringstream::traits_type::eof()) {
+        throw std::logic_error("STL: invalid number: " + label.str());
+    }
+    return res;
+}
+
+} /* namespace */
+
 Parser::Parser() {
 }
 
@@ -37,60 +69,61 @@ Parser::~Parser() {
 }
 
 Data Parser::read(std::istream& stl) const {
-    // Reads coordinates.
-    std::string label;
+    // Reads solids, each one with the corners of its facets.
+    std::vector<std::string> names;
+    std::vector<std::size_t> numberOfFacets;
     std::vector<Math::CVecR3> vertices;
-    std::size_t nLines = std::count(std::istreambuf_iterator<char>(stl),
-                                    std::istreambuf_iterator<char>(), '\n');
-    vertices.reserve(nLines);
-	
-    stl.seekg(0); // Rewinds.
-    while (stl.peek() != EOF) {
-        stl >> label;
-        if (label == "vertex") {
-            Math::CVecR3 vertex;
-            stl >> vertex(Math::Constants::x)
-                >> vertex(Math::Constants::y)
-                >> vertex(Math::Constants::z);
-            vertices.push_back(vertex);
+    std::string label, line;
+    while (stl >> label) {
+        if (label != "solid") {
+            throw std::logic_error("STL: solid was expected, found: " + label);
+        }
+        std::string name;
+        std::getline(stl, line);
+        std::istringstream(line) >> name;
+        names.push_back(name);
+        numberOfFacets.push_back(0);
+        while ((label = readLabel(stl)) != "endsolid") {
+            if (label != "facet") {
+                throw std::logic_error(
+                        "STL: facet was expected, found: " + label);
+            }
+            expect(stl, "normal");
+            for (std::size_t i = 0; i < 3; i++) {
+                readLabel(stl);
+            }
+            expect(stl, "outer");
+            expect(stl, "loop");
+            for (std::size_t i = 0; i < 3; i++) {
+                expect(stl, "vertex");
+                Math::CVecR3 vertex;
+                for (std::size_t j = 0; j < 3; j++) {
+                    vertex(j) = readNumber(stl);
+                }
+                vertices.push_back(vertex);
+            }
+            expect(stl, "endloop");
+            expect(stl, "endfacet");
+            numberOfFacets.back()++;
         }
+        std::getline(stl, line);
     }
     Geometry::Coordinate::Group<Geometry::CoordR3> cG;
     cG.addPos(vertices);
 
-    // Reads Elements and Layers.
-	stl.clear();
-	stl.seekg(0); // Rewinds.
-	Geometry::Layer::Group<Geometry::Layer::Layer> lG;
+    // Creates elements and layers.
+    Geometry::Layer::Group<Geometry::Layer::Layer> lG;
     Geometry::Element::Group<Geometry::ElemR> eG;
-    while (stl.peek() != EOF) {
-        stl >> label;
-        if (label == "solid") {
-            std::string layerName;
-            stl >> layerName;
-            Geometry::Layer::Layer* lay = 
-                lG.addId(new Geometry::Layer::Layer(layerName))(0);
-            std::string line;
-            while (stl.peek() != EOF) {
-                std::getline(stl, line);
-                if (trim(line) == "outer loop") {
-                    std::vector<const Geometry::CoordR3*> coord;
-                    coord.reserve(3);
-                    while (stl.peek() != EOF && label != "endloop") {
-                        stl >> label;
-                        if (label == "vertex") {
-                            Math::CVecR3 pos;
-                            stl >> pos(Math::Constants::x)
-                                >> pos(Math::Constants::y)
-                                >> pos(Math::Constants::z);
-                            coord.push_back(cG.getPos(pos));
-                        }
-                    }
-                    label.clear();
-                    eG.addId(new Geometry::Tri3(Geometry::ElemId(0),
-                                                &coord[0], lay));
-                }
+    std::size_t v = 0;
+    for (std::size_t i = 0; i < names.size(); i++) {
+        Geometry::Layer::Layer* lay =
+            lG.addId(new Geometry::Layer::Layer(names[i]))(0);
+        for (std::size_t f = 0; f < numberOfFacets[i]; f++) {
+            const Geometry::CoordR3* coord[3];
+            for (std::size_t j = 0; j < 3; j++) {
+                coord[j] = cG.getPos(vertices[v++]);
             }
+            eG.addId(new Geometry::Tri3(Geometry::ElemId(0), coord, lay));
         }
     }
 
-- 
2.43.0


From 27baaea4bbab38b90ee8c479587cac1ff94f7606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 089/146] fix: the scaling factor did not reach the dimensions
 of the ports

---
 src/core/parser/Parser.cpp                    | 5 +++++
 src/core/source/Source.h                      | 4 ++++
 src/core/source/port/TEMCoaxial.cpp           | 6 ++++++
 src/core/source/port/TEMCoaxial.h             | 1 +
 src/core/source/port/WaveguideRectangular.cpp | 4 ++++
 src/core/source/port/WaveguideRectangular.h   | 1 +
 6 files changed, 21 insertions(+)

diff --git a/src/core/parser/Parser.cpp b/src/core/parser/Parser.cpp
index 8508c09..9e3d1b7 100755
--- a/src/core/parser/Parser.cpp
+++ b/src/core/parser/Parser.cpp
@@ -57,6 +57,11 @@ void Parser::postReadOperations(Data& res) const {
                 Math::Real scalingFactor =
                         res.solver->getSettings()("geometryScalingFactor").getReal();
                 res.mesh->applyScalingFactor(scalingFactor);
+                if (res.sources != nullptr) {
+                    for (std::size_t i = 0; i < res.sources->size(); i++) {
+                        (*res.sources)(i)->applyScalingFactor(scalingFactor);
+                    }
+                }
             }
             catch (...) {
                 std::cerr << "Unable to find geometryScalingFactor "
diff --git a/src/core/source/Source.h b/src/core/source/Source.h
index 5b81f53..9119b2e 100755
--- a/src/core/source/Source.h
+++ b/src/core/source/Source.h
@@ -53,6 +53,10 @@ public:
     virtual void add(
             const Geometry::Element::Group<const Geometry::Elem>&) = 0;
 
+    /** Applies to the lengths stored in the source the factor which has been
+     *  applied to the mesh. */
+    virtual void applyScalingFactor(const Math::Real factor) {}
+
     template<class T>
     bool magnitudeIs() const {
         return magnitude_->is<T>();
diff --git a/src/core/source/port/TEMCoaxial.cpp b/src/core/source/port/TEMCoaxial.cpp
index 4d3c5d8..cd3e016 100755
--- a/src/core/source/port/TEMCoaxial.cpp
+++ b/src/core/source/port/TEMCoaxial.cpp
@@ -111,6 +111,12 @@ void TEMCoaxial::set(
     Source<Geometry::Surf>::set(elemGroup);
 }
 
+void TEMCoaxial::applyScalingFactor(const Math::Real factor) {
+    origin_ = origin_ * factor;
+    innerRadius_ *= factor;
+    outerRadius_ *= factor;
+}
+
 } /* namespace Port */
 } /* namespace Source */
 } /* namespace SEMBA */
diff --git a/src/core/source/port/TEMCoaxial.h b/src/core/source/port/TEMCoaxial.h
index 3c431d0..b23310c 100755
--- a/src/core/source/port/TEMCoaxial.h
+++ b/src/core/source/port/TEMCoaxial.h
@@ -43,6 +43,7 @@ public:
     SEMBA_CLASS_DEFINE_CLONE(TEMCoaxial);
 
     void set(const Geometry::Element::Group<const Geometry::Elem>&);
+    void applyScalingFactor(const Math::Real factor);
 
     const std::string& getName() const;
 
diff --git a/src/core/source/port/WaveguideRectangular.cpp b/src/core/source/port/WaveguideRectangular.cpp
index 9f6b991..bdbbd75 100755
--- a/src/core/source/port/WaveguideRectangular.cpp
+++ b/src/core/source/port/WaveguideRectangular.cpp
@@ -109,6 +109,10 @@ void WaveguideRectangular::set(
     box_ = this->getBound();
 }
 
+void WaveguideRectangular::applyScalingFactor(const Math::Real factor) {
+    box_ = this->getBound();
+}
+
 Math::CVecR3 WaveguideRectangular::getOrigin() const {
     return box_.getMin();
 }
diff --git a/src/core/source/port/WaveguideRectangular.h b/src/core/source/port/WaveguideRectangular.h
index f8885c5..2fb7b3c 100755
--- a/src/core/source/port/WaveguideRectangular.h
+++ b/src/core/source/port/WaveguideRectangular.h
@@ -44,6 +44,7 @@ public:
     SEMBA_CLASS_DEFINE_CLONE(WaveguideRectangular);
 
     void set(const Geometry::Element::Group<const Geometry::Elem>&);
+    void applyScalingFactor(const Math::Real factor);
 
     const std::string& getName() const;
     Math::Real getWidth() const;
-- 
2.43.0


From 5a0a4f9b32d964482fcb687949bd8be289079fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 090/146] fix: a crystal written by the GUI could not be read

---
 src/parser/json/Parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index c91934f..b3909aa 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -271,6 +271,8 @@ PhysicalModel::PhysicalModel* Parser::readPhysicalModel(const json& j) {
             return new PhysicalModel::Volume::AnisotropicCrystal(id, name,
                     strToLocalAxes(j.at("localAxes").get<std::string>()),
                     strToCVecR3(
+                            j.find("relativePermittivityPrincipalAxes") != j.end() ?
+                            j.at("relativePermittivityPrincipalAxes").get<std::string>() :
                             j.at("relativePermittiviy").get<std::string>()),
                     j.at("crystalRelativePermeability").get<double>());
         } else if (str.compare("Ferrite")==0) {
-- 
2.43.0


From d1aee19b8f6c0c03d14a770cb9aeec8c559bfd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 091/146] fix: padding by number of cells was ignored with an
 unchanged mesh size

---
 src/parser/json/Parser.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index b3909aa..d55e54f 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -575,8 +575,15 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
                     strToCVecR3(g.at("upperPadding").get<std::string>()));
             if (g.at("boundaryPaddingType").get<std::string>().compare(
                     "by_number_of_cells") == 0) {
-                boundaryPadding.first  *= boundaryMeshSize.first;
-                boundaryPadding.second *= boundaryMeshSize.second;
+                // A null mesh size stands for the size of the cells in the bound.
+                for (std::size_t i = 0; i < 3; i++) {
+                    boundaryPadding.first(i) *= boundaryMeshSize.first(i) != 0.0 ?
+                            boundaryMeshSize.first(i) :
+                            res.getStep(i, 0);
+                    boundaryPadding.second(i) *= boundaryMeshSize.second(i) != 0.0 ?
+                            boundaryMeshSize.second(i) :
+                            res.getStep(i, res.getNumCells()(i) - 1);
+                }
             }
             res.enlarge(boundaryPadding, boundaryMeshSize);
         }
-- 
2.43.0


From b42740682966f2eec6353789ba00d0a78d280742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:46 +0000
Subject: [PATCH 092/146] fix: malformed lists of numbers were read as
 something else

---
 src/core/class/Identification.hpp |  4 +++
 src/parser/json/Parser.cpp        | 44 ++++++++-----------------------
 src/parser/json/Parser.h          | 22 ++++++++++++++++
 3 files changed, 37 insertions(+), 33 deletions(-)

diff --git a/src/core/class/Identification.hpp b/src/core/class/Identification.hpp
index 978f22f..b08531b 100755
--- a/src/core/class/Identification.hpp
+++ b/src/core/class/Identification.hpp
@@ -127,6 +127,10 @@ std::string Identification<T>::toStr() const {
 
 template <typename I>
 std::istream& operator>>(std::istream& input, Identification<I>& id) {
+    if ((input >> std::ws).peek() == '-') {
+        input.setstate(std::ios_base::failbit);
+        return input;
+    }
     input >> id.id_;
     return input;
 }
diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index d55e54f..8058566 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -480,6 +480,7 @@ Geometry::Coordinate::Group<Geometry::CoordR3> Parser::readCoordinates(
         Math::CVecR3 pos;
         std::stringstream ss(it->get<std::string>());
         ss >> id >> pos(0) >> pos(1) >> pos(2);
+        checkAllRead(ss);
         res.add(new Geometry::CoordR3(id, pos));
     }
     return res;
@@ -829,40 +830,20 @@ PhysicalModel::Multiport::Multiport::Type Parser::strToMultiportType(
 
 std::pair<Math::CVecR3, Math::CVecR3> Parser::strToBox(
         const std::string& value) {
-    std::size_t begin = value.find_first_of("{");
-    std::size_t end = value.find_last_of("}");
-    std::string aux = value.substr(begin+1,end-1);
-    std::stringstream iss(aux);
-    Math::CVecR3 max, min;
-    for (std::size_t i = 0; i < 3; i++) {
-        iss >> max(i);
-    }
-    for (std::size_t i = 0; i < 3; i++) {
-        iss >> min(i);
-    }
+    const std::vector<Math::Real> aux = strToNumbers<Math::Real>(value, 6);
+    const Math::CVecR3 max(aux[0], aux[1], aux[2]);
+    const Math::CVecR3 min(aux[3], aux[4], aux[5]);
     return {min, max};
 }
 
 Math::CVecI3 Parser::strToCVecI3(std::string str) {
-    str.erase(std::remove(str.begin(), str.end(), '{'), str.end());
-    str.erase(std::remove(str.begin(), str.end(), '}'), str.end());
-    std::stringstream ss(str);
-    Math::CVecI3 res;
-    ss >> res(Math::Constants::x)
-       >> res(Math::Constants::y)
-       >> res(Math::Constants::z);
-    return res;
+    const std::vector<Math::Int> aux = strToNumbers<Math::Int>(str, 3);
+    return Math::CVecI3(aux[0], aux[1], aux[2]);
 }
 
 Math::CVecR3 Parser::strToCVecR3(std::string str) {
-    str.erase(std::remove(str.begin(), str.end(), '{'), str.end());
-    str.erase(std::remove(str.begin(), str.end(), '}'), str.end());
-    std::stringstream ss(str);
-    Math::CVecR3 res;
-    ss >> res(Math::Constants::x)
-       >> res(Math::Constants::y)
-       >> res(Math::Constants::z);
-    return res;
+    const std::vector<Math::Real> aux = strToNumbers<Math::Real>(str, 3);
+    return Math::CVecR3(aux[0], aux[1], aux[2]);
 }
 
 Source::OnLine::Type Parser::strToNodalType(std::string str) {
@@ -962,12 +943,9 @@ bool Parser::checkVersionCompatibility(const std::string& version) {
 }
 
 Math::Axis::Local Parser::strToLocalAxes(const std::string& str) {
-    std::size_t begin = str.find_first_of("{");
-    std::size_t end = str.find_first_of("}");
-    Math::CVecR3 eulerAngles = strToCVecR3(str.substr(begin+1,end-1));
-    begin = str.find_last_of("{");
-    end = str.find_last_of("}");
-    Math::CVecR3 origin = strToCVecR3(str.substr(begin+1,end-1));
+    const std::vector<Math::Real> aux = strToNumbers<Math::Real>(str, 6);
+    const Math::CVecR3 eulerAngles(aux[0], aux[1], aux[2]);
+    const Math::CVecR3 origin(aux[3], aux[4], aux[5]);
     return Math::Axis::Local(eulerAngles, origin);
 }
 
diff --git a/src/parser/json/Parser.h b/src/parser/json/Parser.h
index d6d0e6d..49a3dad 100755
--- a/src/parser/json/Parser.h
+++ b/src/parser/json/Parser.h
@@ -149,6 +149,27 @@ private:
     static const PhysicalModel::Bound::Bound*    strToBoundType(std::string str);
 };
 
+//! Throws unless everything asked has been read and there is nothing else.
+inline void checkAllRead(std::stringstream& ss) {
+    if (ss.fail() || !(ss >> std::ws).eof()) {
+        throw std::logic_error("Unable to read: " + ss.str());
+    }
+}
+
+//! Reads exactly n numbers, which may be grouped with braces.
+template<typename T>
+std::vector<T> strToNumbers(std::string str, const std::size_t n) {
+    std::replace(str.begin(), str.end(), '{', ' ');
+    std::replace(str.begin(), str.end(), '}', ' ');
+    std::stringstream ss(str);
+    std::vector<T> res(n);
+    for (std::size_t i = 0; i < n; i++) {
+        ss >> res[i];
+    }
+    checkAllRead(ss);
+    return res;
+}
+
 template<typename T>
 Geometry::Element::Group<T> readElemIdsAsGroupOf(
 		Geometry::Mesh::Geometric& mesh, const json& j) {
@@ -180,6 +201,7 @@ Geometry::Element::Group<Geometry::ElemR> readElemStrAs(
         for (std::size_t j = 0; j < T::sizeOfCoordinates; j++) {
             ss >> vId[j];
         }
+        checkAllRead(ss);
 
         const Geometry::Layer::Layer* layerPtr;
         const PhysicalModel::PhysicalModel* matPtr;
-- 
2.43.0


From 1d29feb29356c9f32e648bb8edd4e8cab34e6904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 093/146] fix: a problem file without materials was a null
 dereference

---
 src/parser/json/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 8058566..5b339b7 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -188,10 +188,10 @@ Source::Group<>* Parser::readSources(
 }
 
 PhysicalModel::Group<>* Parser::readPhysicalModels(const json& j){
+    PhysicalModel::Group<>* res = new PhysicalModel::Group<>();
     if (j.find("materials") == j.end()) {
-        return nullptr;
+        return res;
     }
-    PhysicalModel::Group<>* res = new PhysicalModel::Group<>();
     json mats = j.at("materials");
     for (json::const_iterator it = mats.begin(); it != mats.end(); ++it) {
         res->add(readPhysicalModel( *it ));
-- 
2.43.0


From be3333b582c0d34037b562509c47ff3fe6cbd4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 094/146] fix: grids without cells were accepted or read out of
 bounds

---
 src/parser/json/Parser.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 5b339b7..88ce2af 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -537,7 +537,7 @@ PhysicalModel::Surface::Multilayer* Parser::readMultilayerSurface(
 }
 
 Geometry::Grid3 Parser::readGrids(const json& j) {
-    if (j.find("grids") == j.end()) {
+    if (j.find("grids") == j.end() || j.at("grids").empty()) {
         throw std::logic_error("Grids object not found.");
     }
 
@@ -547,13 +547,24 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
         // Initializes basic grid.
         Geometry::Grid3 res;
         if (g.at("type").get<std::string>().compare("Number_of_cells") == 0) {
-            res = Geometry::Grid3(
-                    strToBox(g.at("layerBox").get<std::string>()),
-                    strToCVecI3(g.at("numberOfCells").get<std::string>()));
+            Geometry::BoxR3 box = strToBox(g.at("layerBox").get<std::string>());
+            Math::CVecI3 cells =
+                strToCVecI3(g.at("numberOfCells").get<std::string>());
+            for (std::size_t i = 0; i < 3; i++) {
+                if (!(box.getLength()[i] > 0.0) || cells[i] < 1) {
+                    throw std::logic_error("Grid has zero size.");
+                }
+            }
+            res = Geometry::Grid3(box, cells);
         } else {
             Geometry::BoxR3 box = strToBox(g.at("layerBox").get<std::string>());
             Math::CVecR3 stepSize = 
                 strToCVecR3(g.at("stepSize").get<std::string>());
+            for (std::size_t i = 0; i < 3; i++) {
+                if (!(box.getLength()[i] > 0.0) || !(stepSize[i] > 0.0)) {
+                    throw std::logic_error("Grid has zero size.");
+                }
+            }
             if (g.at("fitSizeToBox").get<bool>()) {
                 for (std::size_t i = 0; i < 3; i++) {
 					std::size_t n = std::round(box.getLength()[i] / stepSize[i]);
@@ -605,9 +616,15 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
         pos[0] = g.at("xCoordinates").get<std::vector<double>>();
         pos[1] = g.at("yCoordinates").get<std::vector<double>>();
         pos[2] = g.at("zCoordinates").get<std::vector<double>>();
-        if (!pos[0].empty()) {
+        if (!pos[0].empty() && !pos[1].empty() && !pos[2].empty()) {
             return Geometry::Grid3(pos);
         } else {
+            for (std::size_t i = 0; i < 3; i++) {
+                if (!pos[i].empty() ||
+                    !(boxSize[i] > 0.0) || nGridPoints[i] < 1) {
+                    throw std::logic_error("Grid has zero size.");
+                }
+            }
             std::pair<Math::CVecR3, Math::CVecR3> box =
             { corner, corner + boxSize };
             return Geometry::Grid3(box, nGridPoints);
-- 
2.43.0


From 6ceefef9ab8afe475957f4805115e121e533966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 095/146] fix: ids and counts out of the range of int were read
 as other ones

---
 src/parser/json/Parser.cpp | 23 ++++++++++++-----------
 src/parser/json/Parser.h   | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 88ce2af..304627e 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -204,7 +204,7 @@ PhysicalModel::PhysicalModel* Parser::readPhysicalModel(const json& j) {
                 strToMaterialType( j.at("materialType").get<std::string>() );
 	MatId id;
 	if (j.find("materialId") != j.end()) {
-		id = MatId(j.at("materialId").get<int>());
+		id = MatId(readUnsigned<std::size_t>(j.at("materialId")));
 	} else {
 		id = MatId(0);
 	}
@@ -347,7 +347,7 @@ void Parser::readConnectorOnPoint(
 		PhysicalModel::PhysicalModel* mat = readPhysicalModel(*it);
 		pMG.addId(mat);
 				
-		Geometry::CoordId cId( it->at("coordIds").get<int>() );
+		Geometry::CoordId cId(readUnsigned<std::size_t>(it->at("coordIds")));
 		const Geometry::CoordR3* coord[1] = { mesh.coords().getId(cId) };
 		Geometry::ElemId eId(0);
 		Geometry::NodR* node = 
@@ -394,18 +394,18 @@ OutputRequest::Base* Parser::readOutputRequest(
 			return new OutputRequest::BulkCurrent(domain, name,
 				boxToElemGroup(mesh, j.at("box").get<std::string>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>(), type);
+				readUnsigned<Math::UInt>(j.at("skip")), type);
 		} else if (gidOutputType.compare("OutRq_on_point") == 0) {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readCoordIdAsNodes(mesh, j.at("elemIds").get<json>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>(), type);
+				readUnsigned<Math::UInt>(j.at("skip")), type);
 		} else {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readElemIdsAsGroupOf<const Geometry::Elem>(
 					mesh, j.at("elemIds").get<json>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>(), type);
+				readUnsigned<Math::UInt>(j.at("skip")), type);
 		}
 	}
 
@@ -460,7 +460,7 @@ Geometry::Layer::Group<> Parser::readLayers(const json& j) {
     const json layers = j.at("layers");
     for (json::const_iterator it = layers.begin(); it != layers.end(); ++it) {
         res.add(new Geometry::Layer::Layer(
-                Geometry::Layer::Id(it->at("id").get<int>()),
+                Geometry::Layer::Id(readUnsigned<std::size_t>(it->at("id"))),
                 it->at("name").get<std::string>()));
     }
     return res;
@@ -511,7 +511,7 @@ Geometry::Element::Group<Geometry::ElemR> Parser::readElements(
 
 PhysicalModel::Surface::Multilayer* Parser::readMultilayerSurface(
         const json& mat) {
-    MatId id = MatId(mat.at("materialId").get<int>());
+    MatId id = MatId(readUnsigned<std::size_t>(mat.at("materialId")));
     std::string name = mat.at("name").get<std::string>();
 
     std::vector<PhysicalModel::Surface::Multilayer::Layer> layers;
@@ -529,7 +529,7 @@ PhysicalModel::Surface::Multilayer* Parser::readMultilayerSurface(
         PhysicalModel::Surface::Multilayer::FittingOptions opts(
                 std::make_pair(mat.at("freqMin").get<double>(),
                         mat.at("freqMax").get<double>()),
-                        mat.at("numberOfPoles").get<int>());
+                        readUnsigned<std::size_t>(mat.at("numberOfPoles")));
         return new PhysicalModel::Surface::Multilayer(id, name, layers, {opts});
     } else {
         return new PhysicalModel::Surface::Multilayer(id, name, layers);
@@ -693,7 +693,7 @@ Source::PlaneWave* Parser::readPlanewave(
 
     } else if (definitionMode.compare("randomized_multisource")==0) {
         return new Source::PlaneWave(magnitude, elems,
-                j.at("numberOfRandomPlanewaves").get<int>(),
+                readUnsigned<Math::Int>(j.at("numberOfRandomPlanewaves")),
                 j.at("relativeVariationOfRandomDelay").get<double>());
 
     } else {
@@ -710,7 +710,8 @@ Source::Port::Waveguide* Parser::readPortWaveguide(
                 readElemIdsAsGroupOf<const Geometry::Surf>(
                              mesh, j.at("elemIds").get<json>()),
                 strToWaveguideMode(  j.at("excitationMode").get<std::string>()),
-                {j.at("firstMode").get<int>(), j.at("secondMode").get<int>()} );
+                {readUnsigned<std::size_t>(j.at("firstMode")),
+                 readUnsigned<std::size_t>(j.at("secondMode"))} );
     } else {
         throw std::logic_error("Unrecognized waveguide port shape: " + shape);
     }
@@ -1010,7 +1011,7 @@ Geometry::Element::Group<Geometry::Nod> Parser::readCoordIdAsNodes(
         Geometry::Mesh::Geometric& mesh, const json& j) {
     std::vector<Geometry::ElemId> nodeIds;
     for (auto it = j.begin(); it != j.end(); ++it) {
-        Geometry::CoordId coordId( it->get<int>() );
+        Geometry::CoordId coordId(readUnsigned<std::size_t>(*it));
         const Geometry::CoordR3* coord = mesh.coords().getId(coordId);
         Geometry::NodR* node = new Geometry::NodR(Geometry::ElemId(0), &coord);
         mesh.elems().addId(node);
diff --git a/src/parser/json/Parser.h b/src/parser/json/Parser.h
index 49a3dad..076ee12 100755
--- a/src/parser/json/Parser.h
+++ b/src/parser/json/Parser.h
@@ -28,6 +28,7 @@
 #include <iostream>
 #include <string>
 #include <algorithm>
+#include <limits>
 
 #include "geometry/mesh/Geometric.h"
 #include "physicalModel/bound/PEC.h"
@@ -156,6 +157,16 @@ inline void checkAllRead(std::stringstream& ss) {
     }
 }
 
+//! Reads an identifier or a count. Throws if T can not represent it.
+template<typename T>
+T readUnsigned(const json& j) {
+    const double value = j.get<double>();
+    if (!(value >= 0.0 && value <= std::numeric_limits<T>::max())) {
+        throw std::logic_error("Number out of range: " + j.dump());
+    }
+    return j.get<T>();
+}
+
 //! Reads exactly n numbers, which may be grouped with braces.
 template<typename T>
 std::vector<T> strToNumbers(std::string str, const std::size_t n) {
@@ -175,7 +186,7 @@ Geometry::Element::Group<T> readElemIdsAsGroupOf(
 		Geometry::Mesh::Geometric& mesh, const json& j) {
 	Geometry::Element::Group<T> geometricElements;
 	for (auto it = j.begin(); it != j.end(); ++it) {
-		geometricElements.add(mesh.elems().getId(Geometry::ElemId(it->get<int>()) ));
+		geometricElements.add(mesh.elems().getId(Geometry::ElemId(readUnsigned<std::size_t>(*it))));
 	}
 	return geometricElements;
 }
-- 
2.43.0


From 325f15ecfb5b3dee4ed223f1e8e05495cb75bb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 096/146] fix: a bulk current with an unknown type of output
 was accepted

---
 src/parser/json/Parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 304627e..cae55e6 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -400,12 +400,16 @@ OutputRequest::Base* Parser::readOutputRequest(
 				readCoordIdAsNodes(mesh, j.at("elemIds").get<json>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
 				readUnsigned<Math::UInt>(j.at("skip")), type);
-		} else {
+		} else if (gidOutputType.compare("OutRq_on_line") == 0 ||
+			gidOutputType.compare("OutRq_on_surface") == 0) {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readElemIdsAsGroupOf<const Geometry::Elem>(
 					mesh, j.at("elemIds").get<json>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
 				readUnsigned<Math::UInt>(j.at("skip")), type);
+		} else {
+			throw std::logic_error(
+				"Unrecognized GiD Output request type: " + gidOutputType);
 		}
 	}
 
-- 
2.43.0


From 76d89c608324aba2c7468ba3b30738d5f8cb92a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 097/146] fix: a truncated problem file was read as far as it
 went

---
 src/parser/json/Parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index cae55e6..1e3830e 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -60,6 +60,7 @@ Data Parser::read(std::istream& stream) const {
     }
     catch( const std::exception & ex ) {
         std::cerr << ex.what() << std::endl;
+        throw;
     }
 
     Util::ProgressBar progress;
-- 
2.43.0


From 5925800f5f764fa526f2bb029102330ded116942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 098/146] fix: copying, comparing or evaluating a magnitude
 without function crashed, and assigning one leaked the former function

---
 src/core/source/magnitude/Magnitude.cpp | 34 +++++++++++++++++++++----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/core/source/magnitude/Magnitude.cpp b/src/core/source/magnitude/Magnitude.cpp
index 4f3b63c..081270b 100755
--- a/src/core/source/magnitude/Magnitude.cpp
+++ b/src/core/source/magnitude/Magnitude.cpp
@@ -21,6 +21,10 @@
 
 #include "Magnitude.h"
 
+#include <iostream>
+#include <stdexcept>
+#include <typeinfo>
+
 namespace SEMBA {
 namespace Source {
 namespace Magnitude {
@@ -34,8 +38,11 @@ Magnitude::Magnitude(Math::FunctionRR* mathFunction) {
 }
 
 Magnitude::Magnitude(const Magnitude& rhs) {
-    mathFunction_ =
-        dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    mathFunction_ = nullptr;
+    if (rhs.mathFunction_ != nullptr) {
+        mathFunction_ =
+            dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    }
 }
 
 Magnitude::~Magnitude() {
@@ -48,21 +55,38 @@ Magnitude& Magnitude::operator=(const Magnitude& rhs) {
     if (this == &rhs) {
         return *this;
     }
-    mathFunction_ =
-        dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    delete mathFunction_;
+    mathFunction_ = nullptr;
+    if (rhs.mathFunction_ != nullptr) {
+        mathFunction_ =
+            dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    }
     return *this;
 }
 
 bool Magnitude::operator ==(const Magnitude& rhs) const {
+    if (typeid(*this) != typeid(rhs)) {
+        return false;
+    }
+    if (mathFunction_ == nullptr || rhs.mathFunction_ == nullptr) {
+        return mathFunction_ == rhs.mathFunction_;
+    }
     return *mathFunction_ == *rhs.mathFunction_;
 }
 
 void Magnitude::printInfo() const {
     std::cout << " --- Magnitude ---" << std::endl;
-    mathFunction_->printInfo();
+    if (mathFunction_ != nullptr) {
+        mathFunction_->printInfo();
+    } else {
+        std::cout << "No function defined." << std::endl;
+    }
 }
 
 Math::Real Magnitude::evaluate(const Math::Real time) const {
+    if (mathFunction_ == nullptr) {
+        throw std::logic_error("Magnitude without a function to evaluate.");
+    }
     return mathFunction_->operator()(time);
 }
 
-- 
2.43.0


From b7d17fa6b01edef6a5cab9fae39e60755c663cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 099/146] fix: a numerical magnitude could not be evaluated

---
 src/core/source/magnitude/Numerical.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/source/magnitude/Numerical.cpp b/src/core/source/magnitude/Numerical.cpp
index d07d98c..c9169f2 100755
--- a/src/core/source/magnitude/Numerical.cpp
+++ b/src/core/source/magnitude/Numerical.cpp
@@ -124,8 +124,7 @@ bool Numerical::operator==(const Magnitude& rhs) const {
 }
 
 Math::Real Numerical::evaluate(const Math::Real time) const {
-    throw std::logic_error("Numerical::evaluate not implemented");
-    return 0.0;
+    return Magnitude::evaluate(time);
 }
 
 void Numerical::printInfo() const {
-- 
2.43.0


From 4b67b4aff738467c2024478ecf32254a5e681de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 100/146] fix: a magnitude exported to a file lost its ends,
 its faint values and everything else when it was straight or the step was
 zero

---
 src/core/source/magnitude/Numerical.cpp | 29 ++++++++++++++++---------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/core/source/magnitude/Numerical.cpp b/src/core/source/magnitude/Numerical.cpp
index c9169f2..ae2ebd8 100755
--- a/src/core/source/magnitude/Numerical.cpp
+++ b/src/core/source/magnitude/Numerical.cpp
@@ -21,6 +21,10 @@
 
 #include "Numerical.h"
 
+#include <algorithm>
+#include <cmath>
+#include <limits>
+
 #include "math/function/LinearInterpolation.h"
 #include "math/util/Real.h"
 
@@ -40,7 +44,7 @@ Numerical::Numerical(const FileSystem::Project& file)
 
 Numerical::Numerical(const FileSystem::Project& file,
                      const Magnitude& mag,
-                     const Math::Real timeStep,
+                     const Math::Real samplingStep,
                      const Math::Real finalTime)
 :   FileSystem::Project(file) {
 
@@ -48,11 +52,14 @@ Numerical::Numerical(const FileSystem::Project& file,
         operator=(*mag.castTo<Numerical>());
         return;
     }
+    // The samples cover the final time.
     std::size_t nSteps;
+    Math::Real timeStep = samplingStep;
     if (timeStep != 0.0) {
-        nSteps = (std::size_t)std::abs(finalTime / timeStep);
+        nSteps = (std::size_t)std::ceil(std::abs(finalTime / timeStep));
     } else {
         nSteps = defaultNumberOfSteps;
+        timeStep = finalTime / nSteps;
         std::cerr << "WARNING @ Numerical: "
                   << "Attempting to build a "
                   << "numerical magnitude with a 0.0 step."
@@ -66,22 +73,24 @@ Numerical::Numerical(const FileSystem::Project& file,
     out.open(file.c_str());
 
     Math::Real time = 0.0;
-    for (std::size_t i = 0; i < nSteps; i++) {
+    for (std::size_t i = 0; i <= nSteps; i++) {
         // Determines if neigh values are aligned with current.
         std::vector<std::pair<Math::Real,Math::Real>> preAndPost;
         const Math::Real tPre = time - timeStep;
         const Math::Real tPost = time + timeStep;
-        preAndPost.push_back(
-            std::pair<Math::Real,Math::Real>(tPre, mag.evaluate(tPre)));
-        preAndPost.push_back(
-            std::pair<Math::Real,Math::Real>(tPost, mag.evaluate(tPost)));
+        const Math::Real pre = mag.evaluate(tPre);
+        const Math::Real post = mag.evaluate(tPost);
+        preAndPost.push_back(std::pair<Math::Real,Math::Real>(tPre, pre));
+        preAndPost.push_back(std::pair<Math::Real,Math::Real>(tPost, post));
         const Math::Real interpolated =
             Math::Function::LinearInterpolation<Math::Real,Math::Real>(
                 preAndPost)(time);
         const Math::Real current = mag.evaluate(time);
-        bool isAligned = Math::Util::equal(current, interpolated,
-                0.0, std::numeric_limits<Math::Real>::epsilon());
-        if (!isAligned) {
+        const bool isAligned = std::abs(current - interpolated) <=
+                std::numeric_limits<Math::Real>::epsilon() *
+                std::max(std::abs(pre), std::abs(post));
+        // The first and last samples are the ends of the interpolation.
+        if (!isAligned || i == 0 || i == nSteps) {
             out << std::setw(16) << std::setfill(' ') << time 
                 << std::setw(18) << std::setfill(' ') << current 
                 << std::endl;
-- 
2.43.0


From cf0aca24ba0340c8e2444e80745470b52c9d8ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 101/146] fix: the magnetic field of a plane wave grew with the
 length given to its direction

---
 src/core/source/PlaneWave.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/source/PlaneWave.cpp b/src/core/source/PlaneWave.cpp
index 1bc8e16..56ec3d8 100755
--- a/src/core/source/PlaneWave.cpp
+++ b/src/core/source/PlaneWave.cpp
@@ -137,7 +137,8 @@ std::pair<Math::CVecR3, Math::CVecR3>
 PlaneWave::getElectromagneticField(const Math::Real time) const {
     Math::CVecR3 electric = getElectricField(time);
     Math::CVecR3 magnetic = (direction_ ^ electric) *
-                            Math::Constants::VACUUM_ADMITANCE;
+                            (Math::Constants::VACUUM_ADMITANCE /
+                             direction_.norm());
     return std::pair<Math::CVecR3,Math::CVecR3>(electric, magnetic);
 }
 
-- 
2.43.0


From ef37e0450654866d08747030138948064ab63716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 102/146] fix: whether a plane wave is perpendicular to its
 polarization depended on the lengths of the vectors

---
 src/core/source/PlaneWave.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/source/PlaneWave.cpp b/src/core/source/PlaneWave.cpp
index 56ec3d8..6c27a9c 100755
--- a/src/core/source/PlaneWave.cpp
+++ b/src/core/source/PlaneWave.cpp
@@ -184,8 +184,9 @@ void PlaneWave::init_(Math::CVecR3 direction, Math::CVecR3 polarization) {
     if (direction_.norm() == 0) {
         throw Error::PlaneWave::ZeroMagnitude();
     }
-    Math::Real dotProd = direction.dot(polarization);
-    if (Math::Util::notEqual(dotProd, 0.0)) {
+    const Math::Real cosine = direction.dot(polarization) /
+                              (direction.norm() * polarization.norm());
+    if (std::abs(cosine) > Math::Util::tolerance) {
         throw Error::PlaneWave::NotPerpendicular();
     }
 }
-- 
2.43.0


From 768697d96f97d86aad077b25ccc88df43f5a76c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 103/146] fix: the current of a coaxial port went around the
 origin of coordinates, not of the port

---
 src/core/source/port/TEMCoaxial.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/source/port/TEMCoaxial.cpp b/src/core/source/port/TEMCoaxial.cpp
index cd3e016..9d47dd7 100755
--- a/src/core/source/port/TEMCoaxial.cpp
+++ b/src/core/source/port/TEMCoaxial.cpp
@@ -74,7 +74,8 @@ Math::CVecR3 TEMCoaxial::getWeight(
     }
     case ExcitationMode::current:
     {
-        const Math::CVecR3 phiHat = (Math::CVecR3(0,0,1) ^ pos).normalize();
+        const Math::CVecR3 phiHat =
+                (Math::CVecR3(0,0,1) ^ (pos - getOrigin())).normalize();
         return phiHat / (2.0 * Math::Constants::pi * rho);
     }
     default:
-- 
2.43.0


From e808d2ea0719b3d69ef4ecb78bfe02fdf52a63de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 104/146] fix: rectangular waveguide modes with two indices had
 the profile of no mode

---
 src/core/source/port/WaveguideRectangular.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/source/port/WaveguideRectangular.cpp b/src/core/source/port/WaveguideRectangular.cpp
index bdbbd75..d900f0a 100755
--- a/src/core/source/port/WaveguideRectangular.cpp
+++ b/src/core/source/port/WaveguideRectangular.cpp
@@ -72,7 +72,7 @@ Math::CVecR3 WaveguideRectangular::getWeight(
     }
     //const Math::Real betaC = sqrt(pow(m,2) + pow(n,2));
     if (getExcitationMode() == Waveguide::TE) {
-        res(Math::Constants::x) =   n * cos(m * rPos(Math::Constants::x)) *
+        res(Math::Constants::x) = - n * cos(m * rPos(Math::Constants::x)) *
                                         sin(n * rPos(Math::Constants::y)) /
                                         normFactor;
         res(Math::Constants::y) =   m * sin(m * rPos(Math::Constants::x)) *
@@ -83,7 +83,7 @@ Math::CVecR3 WaveguideRectangular::getWeight(
         res(Math::Constants::x) = - m * cos(m * rPos(Math::Constants::x)) *
                                         sin(n * rPos(Math::Constants::y)) /
                                         normFactor;
-        res(Math::Constants::y) = - m * sin(m * rPos(Math::Constants::x)) *
+        res(Math::Constants::y) = - n * sin(m * rPos(Math::Constants::x)) *
                                         cos(n * rPos(Math::Constants::y)) /
                                         normFactor;
         res(Math::Constants::z) = (Math::Real) 0.0;
-- 
2.43.0


From bfbce9863d51840ff7714346863eb99e668bcc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 105/146] fix: a waveguide port kept its former size when
 elements were added

---
 src/core/source/port/WaveguideRectangular.cpp | 6 ++++++
 src/core/source/port/WaveguideRectangular.h   | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/core/source/port/WaveguideRectangular.cpp b/src/core/source/port/WaveguideRectangular.cpp
index d900f0a..922da41 100755
--- a/src/core/source/port/WaveguideRectangular.cpp
+++ b/src/core/source/port/WaveguideRectangular.cpp
@@ -109,6 +109,12 @@ void WaveguideRectangular::set(
     box_ = this->getBound();
 }
 
+void WaveguideRectangular::add(
+    const Geometry::Element::Group<const Geometry::Elem>& constGroupElems) {
+    Waveguide::add(constGroupElems);
+    box_ = this->getBound();
+}
+
 void WaveguideRectangular::applyScalingFactor(const Math::Real factor) {
     box_ = this->getBound();
 }
diff --git a/src/core/source/port/WaveguideRectangular.h b/src/core/source/port/WaveguideRectangular.h
index 2fb7b3c..ee3cfd3 100755
--- a/src/core/source/port/WaveguideRectangular.h
+++ b/src/core/source/port/WaveguideRectangular.h
@@ -44,6 +44,7 @@ public:
     SEMBA_CLASS_DEFINE_CLONE(WaveguideRectangular);
 
     void set(const Geometry::Element::Group<const Geometry::Elem>&);
+    void add(const Geometry::Element::Group<const Geometry::Elem>&);
     void applyScalingFactor(const Math::Real factor);
 
     const std::string& getName() const;
-- 
2.43.0


From 0b3e9a5334b31648a15582d633fbc67803fe8c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 106/146] fix: a source on line printed its type as its
 hardness

---
 src/core/source/OnLine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/OnLine.cpp b/src/core/source/OnLine.cpp
index 1fb47d0..902745c 100755
--- a/src/core/source/OnLine.cpp
+++ b/src/core/source/OnLine.cpp
@@ -77,7 +77,7 @@ std::string OnLine::getTypeStr() const {
 }
 
 std::string OnLine::getHardnessStr() const {
-    switch (type_) {
+    switch (hardness_) {
     case hard:
         return "Hard";
     default:
-- 
2.43.0


From 6bde50f5cbe47524bc12f90c44641a535ae0bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 107/146] fix: converting or exporting a source without
 magnitude crashed

---
 src/core/source/Source.cpp | 7 +++++++
 src/core/source/Source.h   | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/source/Source.cpp b/src/core/source/Source.cpp
index 56f6cbf..d7d4c8e 100755
--- a/src/core/source/Source.cpp
+++ b/src/core/source/Source.cpp
@@ -22,6 +22,7 @@
 #include "Source.h"
 
 #include <iostream>
+#include <stdexcept>
 
 namespace SEMBA {
 namespace Source {
@@ -60,6 +61,9 @@ std::string Base::getMagnitudeFilename() const {
 void Base::convertToNumerical(const FileSystem::Project& file,
                               const Math::Real step,
                               const Math::Real finalTime) {
+    if (magnitude_ == nullptr) {
+        throw std::logic_error("Source without a magnitude to convert.");
+    }
     if(magnitude_->is<Magnitude::Numerical>()) {
         return;
     }
@@ -71,6 +75,9 @@ void Base::convertToNumerical(const FileSystem::Project& file,
 Magnitude::Numerical* Base::exportToFile(const FileSystem::Project& file,
                                          const Math::Real step,
                                          const Math::Real finalTime) const {
+    if (magnitude_ == nullptr) {
+        throw std::logic_error("Source without a magnitude to export.");
+    }
     if(magnitude_->is<Magnitude::Numerical>()) {
         return magnitude_->cloneTo<Magnitude::Numerical>();
     }
diff --git a/src/core/source/Source.h b/src/core/source/Source.h
index 9119b2e..3f2d038 100755
--- a/src/core/source/Source.h
+++ b/src/core/source/Source.h
@@ -59,7 +59,7 @@ public:
 
     template<class T>
     bool magnitudeIs() const {
-        return magnitude_->is<T>();
+        return magnitude_ != nullptr && magnitude_->is<T>();
     }
 
     virtual std::string getMagnitudeFilename() const;
-- 
2.43.0


From 9a7e30c9ea99462d20a1bd9a6722d124b16fe483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:07 +0000
Subject: [PATCH 108/146] fix: setting an end of a wire to itself read it after
 deleting it

---
 src/core/physicalModel/wire/Extremes.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/physicalModel/wire/Extremes.cpp b/src/core/physicalModel/wire/Extremes.cpp
index ab96df8..e88ad89 100755
--- a/src/core/physicalModel/wire/Extremes.cpp
+++ b/src/core/physicalModel/wire/Extremes.cpp
@@ -65,13 +65,13 @@ Extremes::~Extremes() {
 
 void Extremes::setExtreme(const std::size_t i,
                           const Multiport::Multiport* extreme) {
-    if (extreme_[i] != nullptr) {
-        delete extreme_[i];
-    }
+    // The new one is copied first: it may be the one being replaced.
+    const Multiport::Multiport* previous = extreme_[i];
     extreme_[i] = nullptr;
     if (extreme != nullptr) {
         extreme_[i] = extreme->cloneTo<Multiport::Multiport>();
     }
+    delete previous;
 }
 
 void Extremes::swapExtremes() {
-- 
2.43.0


From c1d9f71623e8451b097350c53078497ca31797d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:07 +0000
Subject: [PATCH 109/146] fix: assigned wires with ends shared the ends and
 deleted them twice

---
 src/core/physicalModel/wire/Extremes.cpp | 10 ++++++++++
 src/core/physicalModel/wire/Extremes.h   |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/core/physicalModel/wire/Extremes.cpp b/src/core/physicalModel/wire/Extremes.cpp
index e88ad89..2ed935d 100755
--- a/src/core/physicalModel/wire/Extremes.cpp
+++ b/src/core/physicalModel/wire/Extremes.cpp
@@ -63,6 +63,16 @@ Extremes::~Extremes() {
     }
 }
 
+Extremes& Extremes::operator=(const Extremes& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    Wire::operator=(rhs);
+    setExtreme(0, rhs.extreme_[0]);
+    setExtreme(1, rhs.extreme_[1]);
+    return *this;
+}
+
 void Extremes::setExtreme(const std::size_t i,
                           const Multiport::Multiport* extreme) {
     // The new one is copied first: it may be the one being replaced.
diff --git a/src/core/physicalModel/wire/Extremes.h b/src/core/physicalModel/wire/Extremes.h
index 26d0b05..98c0f3f 100755
--- a/src/core/physicalModel/wire/Extremes.h
+++ b/src/core/physicalModel/wire/Extremes.h
@@ -40,6 +40,8 @@ public:
 
     SEMBA_CLASS_DEFINE_CLONE(Extremes);
 
+    Extremes& operator=(const Extremes& rhs);
+
     const Multiport::Multiport *getExtreme(const std::size_t i) const {
         return extreme_[i];
     }
-- 
2.43.0


From 69953a4909956724f900eb21d28e7f452200ae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:07 +0000
Subject: [PATCH 110/146] fix: a dispersive material lost its electric
 conductivity

---
 src/core/physicalModel/volume/Dispersive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/physicalModel/volume/Dispersive.cpp b/src/core/physicalModel/volume/Dispersive.cpp
index 4e1973c..6de146b 100755
--- a/src/core/physicalModel/volume/Dispersive.cpp
+++ b/src/core/physicalModel/volume/Dispersive.cpp
@@ -47,7 +47,8 @@ Dispersive::Dispersive(const Id id,
     if (magnCond != 0.0) {
         throw std::logic_error("Dispersive magnetic materials not implemented");
     }
-    poleResidue_ = poleResidue;
+    poleResidue_.insert(poleResidue_.end(),
+                        poleResidue.begin(), poleResidue.end());
 }
 
 Dispersive::Dispersive(const Id id,
-- 
2.43.0


From e110535c8e3a5d96e55e7bd8b4b50545e9a43f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:07 +0000
Subject: [PATCH 111/146] fix: asking a material without poles whether it is
 classic read a pole out of range

---
 src/core/physicalModel/volume/Dispersive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/physicalModel/volume/Dispersive.cpp b/src/core/physicalModel/volume/Dispersive.cpp
index 6de146b..8949eea 100755
--- a/src/core/physicalModel/volume/Dispersive.cpp
+++ b/src/core/physicalModel/volume/Dispersive.cpp
@@ -105,7 +105,8 @@ bool Dispersive::isSimplyConductive() const {
     if (!file_.empty()) {
         return false;
     }
-    return (poleResidue_.size() <= 1 && std::abs(getPole(0)) == 0);
+    return (poleResidue_.empty() ||
+            (poleResidue_.size() == 1 && std::abs(getPole(0)) == 0));
 }
 
 Math::Real Dispersive::getElectricConductivity() const {
-- 
2.43.0


From 41445a6f44356407d292d48bb5bfb7d44ffc1367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:08 +0000
Subject: [PATCH 112/146] fix: a material whose poles are in a file was not
 dispersive

---
 src/core/physicalModel/volume/Dispersive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/physicalModel/volume/Dispersive.cpp b/src/core/physicalModel/volume/Dispersive.cpp
index 8949eea..2a75442 100755
--- a/src/core/physicalModel/volume/Dispersive.cpp
+++ b/src/core/physicalModel/volume/Dispersive.cpp
@@ -91,7 +91,7 @@ std::complex<Math::Real> Dispersive::getResidue(std::size_t p) const {
 }
 
 bool Dispersive::isDispersive() const {
-    if (poleResidue_.size() > 0) {
+    if (poleResidue_.size() > 0 || !file_.empty()) {
         return true;
     }
     return false;
-- 
2.43.0


From f94e26cb26201d97b533c76f419345b5083a574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:08 +0000
Subject: [PATCH 113/146] fix: layers of negative permittivity or permeability
 were accepted

---
 src/core/physicalModel/surface/Multilayer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/physicalModel/surface/Multilayer.h b/src/core/physicalModel/surface/Multilayer.h
index 98add24..5f70054 100755
--- a/src/core/physicalModel/surface/Multilayer.h
+++ b/src/core/physicalModel/surface/Multilayer.h
@@ -40,11 +40,11 @@ public:
                 Math::Real relPermeability, Math::Real elecCond) :
                 thickness_(thickness), relPermittivity_(relPermittivity),
                 relPermeability_(relPermeability), elecCond_(elecCond) {
-			if (relPermittivity_ == 0.0) {
+			if (relPermittivity_ <= 0.0) {
 				throw std::logic_error(
 					"Layer relative permittivity must be greater than zero.");
 			}
-			if (relPermeability_ == 0.0) {
+			if (relPermeability_ <= 0.0) {
 				throw std::logic_error(
 					"Layer relative permeability must be greater than zero.");
 			}
-- 
2.43.0


From 1714ba62f3177c550ddf7d56b44c575bb95d243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 114/146] fix: VTK parts with the same name overwrote one
 another's file

---
 src/exporter/vtk/Exporter.cpp | 9 +++++++--
 src/exporter/vtk/Exporter.h   | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index d39d262..d0555fb 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -162,14 +162,19 @@ void Exporter::writeFile_(const Group::Group<const Geometry::ElemR>& elems,
     if (elems.empty()) {
         return;
     }
+    // Parts with the same name go to different files.
+    std::string file = name + ".vtu";
+    for (std::size_t i = 2; !partFiles_.insert(file).second; i++) {
+        file = name + "_" + std::to_string(i) + ".vtu";
+    }
     outMain << "    " << "<DataSet "
             << "group=\"" << name << "\" "
             << "part=\"" << part++ << "\" "
             << "file=\""
-            << getBasename() + ".vtk" + Separator + name + ".vtu" << "\" "
+            << getBasename() + ".vtk" + Separator + file << "\" "
             << "/>" << std::endl;
 
-    std::string filename = getFilename() + ".vtk" + Separator + name + ".vtu";
+    std::string filename = getFilename() + ".vtk" + Separator + file;
     std::ofstream outFile(filename.c_str());
     outFile << "<VTKFile "
             << "type=\"UnstructuredGrid\" "
diff --git a/src/exporter/vtk/Exporter.h b/src/exporter/vtk/Exporter.h
index cbc6f77..6727142 100755
--- a/src/exporter/vtk/Exporter.h
+++ b/src/exporter/vtk/Exporter.h
@@ -26,6 +26,8 @@
 #include <utility>
 #include <algorithm>
 
+#include <set>
+
 #include "exporter/Exporter.h"
 #include "Data.h"
 
@@ -61,6 +63,8 @@ private:
         VTK_QUADRATIC_TETRA      = 24,
         VTK_QUADRATIC_HEXAHEDRON = 25
     };
+    std::set<std::string> partFiles_;
+
     void writeMesh_(const Data* smb);
     void writeFile_(const Group::Group<const Geometry::ElemR>& elems,
                     const std::string& name,
-- 
2.43.0


From 31797b4250fc31809d33bcf8108abd52e2c544b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 115/146] fix: names with markup characters made VTK collection
 files unreadable

---
 src/exporter/vtk/Exporter.cpp | 27 +++++++++++++++++++++++++--
 src/exporter/vtk/Exporter.h   |  1 +
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index d0555fb..2d0f3d2 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -168,10 +168,10 @@ void Exporter::writeFile_(const Group::Group<const Geometry::ElemR>& elems,
         file = name + "_" + std::to_string(i) + ".vtu";
     }
     outMain << "    " << "<DataSet "
-            << "group=\"" << name << "\" "
+            << "group=\"" << escape_(name) << "\" "
             << "part=\"" << part++ << "\" "
             << "file=\""
-            << getBasename() + ".vtk" + Separator + file << "\" "
+            << escape_(getBasename() + ".vtk" + Separator + file) << "\" "
             << "/>" << std::endl;
 
     std::string filename = getFilename() + ".vtk" + Separator + file;
@@ -293,6 +293,29 @@ void Exporter::writeCells_(
     outFile << "      " << "</Cells>" << std::endl;
 }
 
+std::string Exporter::escape_(const std::string& text) {
+    std::string res;
+    for (std::size_t i = 0; i < text.size(); i++) {
+        switch (text[i]) {
+        case '&':
+            res += "&amp;";
+            break;
+        case '<':
+            res += "&lt;";
+            break;
+        case '>':
+            res += "&gt;";
+            break;
+        case '"':
+            res += "&quot;";
+            break;
+        default:
+            res += text[i];
+        }
+    }
+    return res;
+}
+
 std::string Exporter::makeValid_(const std::string& allocator) {
     std::string res = allocator;
     std::replace(res.begin(), res.end(), '/', '_');
diff --git a/src/exporter/vtk/Exporter.h b/src/exporter/vtk/Exporter.h
index 6727142..f19037d 100755
--- a/src/exporter/vtk/Exporter.h
+++ b/src/exporter/vtk/Exporter.h
@@ -80,6 +80,7 @@ private:
             const Group::Group<const Geometry::ElemR>& elems,
             std::map<Geometry::CoordId, std::size_t>& mapCoords);
 
+    static std::string escape_(const std::string&);
     static std::string makeValid_(const std::string&);
 };
 
-- 
2.43.0


From 043a21a09ebbfb52c1d31fb185111563e07156d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 116/146] fix: polylines and polygons were exported to VTK as
 cells of other types

---
 src/exporter/vtk/Exporter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index 2d0f3d2..979e95b 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -25,6 +25,7 @@
 #include "geometry/element/Triangle.h"
 #include "geometry/element/Quadrilateral.h"
 #include "geometry/element/Tetrahedron.h"
+#include "geometry/element/Polygon.h"
 
 namespace {
 #ifdef _WIN32
@@ -275,7 +276,11 @@ void Exporter::writeCells_(
         if (elems(i)->is<Geometry::Nod>()) {
             outFile << CELL_TYPES::VTK_VERTEX;
         } else if (elems(i)->is<Geometry::Lin>()) {
-            outFile << CELL_TYPES::VTK_LINE;
+            if (elems(i)->numberOfVertices() == 2) {
+                outFile << CELL_TYPES::VTK_LINE;
+            } else {
+                outFile << CELL_TYPES::VTK_POLY_LINE;
+            }
         } else if (elems(i)->is<Geometry::Tri>()) {
             outFile << CELL_TYPES::VTK_TRIANGLE;
         } else if (elems(i)->is<Geometry::Qua>()) {
@@ -284,6 +289,8 @@ void Exporter::writeCells_(
             outFile << CELL_TYPES::VTK_TETRA;
         } else if (elems(i)->is<Geometry::Hex8>()) {
             outFile << CELL_TYPES::VTK_HEXAHEDRON;
+        } else if (elems(i)->is<Geometry::Element::Polygon>()) {
+            outFile << CELL_TYPES::VTK_POLYGON;
         } else {
             outFile << CELL_TYPES::VTK_POLY_LINE;
         }
-- 
2.43.0


From f59f4a6c2fb14b7e9630085b5e2f9aefbe1103d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 117/146] fix: VTK files kept six digits of the positions

---
 src/exporter/vtk/Exporter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index 979e95b..8f116e7 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -21,6 +21,8 @@
 
 #include "Exporter.h"
 
+#include <limits>
+
 #include "geometry/mesh/Unstructured.h"
 #include "geometry/element/Triangle.h"
 #include "geometry/element/Quadrilateral.h"
@@ -216,10 +218,11 @@ void Exporter::writePoints_(std::ofstream &outFile,
                             const std::vector<Math::CVecR3>& pos) {
     outFile << "      " << "<Points>" << std::endl;
     outFile << "        " << "<DataArray "
-            << "type=\"Float32\" "
+            << "type=\"Float64\" "
             << "NumberOfComponents=\"3\" "
             << "format=\"ascii\""
             << ">" << std::endl;
+    outFile.precision(std::numeric_limits<Math::Real>::max_digits10);
     outFile << "         ";
     for (std::size_t i = 0; i < pos.size(); i++) {
         outFile << " " << pos[i](Math::Constants::x)
-- 
2.43.0


From 2e105f6410968f2c8596a16c5040477f1152bd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:49 +0000
Subject: [PATCH 118/146] fix: VTK files which could not be written went
 unnoticed

---
 src/exporter/vtk/Exporter.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index 8f116e7..dfc75ae 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -22,6 +22,7 @@
 #include "Exporter.h"
 
 #include <limits>
+#include <memory>
 
 #include "geometry/mesh/Unstructured.h"
 #include "geometry/element/Triangle.h"
@@ -74,8 +75,11 @@ void Exporter::writeMesh_(const Data* smb) {
         grid = nullptr;
     }
 
+    const std::unique_ptr<const Geometry::Mesh::Unstructured> meshOwner(mesh);
+
     std::string filename = getFilename() + ".pvd";
-    std::ofstream outFile(filename.c_str());
+    std::ofstream outFile;
+    openFile_(filename, outFile);
     outFile << "<?xml version=\"1.0\"?>" << std::endl;
     outFile << "<VTKFile "
             << "type=\"Collection\" "
@@ -155,7 +159,6 @@ void Exporter::writeMesh_(const Data* smb) {
     outFile << "  " << "</Collection>" << std::endl;
     outFile << "</VTKFile>" << std::endl;
 
-    delete mesh;
 }
 
 void Exporter::writeFile_(const Group::Group<const Geometry::ElemR>& elems,
@@ -178,7 +181,8 @@ void Exporter::writeFile_(const Group::Group<const Geometry::ElemR>& elems,
             << "/>" << std::endl;
 
     std::string filename = getFilename() + ".vtk" + Separator + file;
-    std::ofstream outFile(filename.c_str());
+    std::ofstream outFile;
+    openFile_(filename, outFile);
     outFile << "<VTKFile "
             << "type=\"UnstructuredGrid\" "
             << "version=\"0.1\" "
-- 
2.43.0


From 30ddaab735806987f6de287793212f4ab69b7bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:09 +0000
Subject: [PATCH 119/146] fix: polylines were exported to VTK as the chord
 between their ends

---
 src/exporter/vtk/Exporter.cpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index dfc75ae..e50d175 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -36,6 +36,22 @@ namespace {
 #else
     const std::string Separator = "/";
 #endif
+
+// A polyline is drawn through all its points, any other by its vertices.
+std::size_t numberOfPoints(const SEMBA::Geometry::ElemR* elem) {
+    if (elem->is<SEMBA::Geometry::Lin>()) {
+        return elem->numberOfCoordinates();
+    }
+    return elem->numberOfVertices();
+}
+
+const SEMBA::Geometry::CoordR3* getPoint(const SEMBA::Geometry::ElemR* elem,
+                                         const std::size_t i) {
+    if (elem->is<SEMBA::Geometry::Lin>()) {
+        return elem->getV(i);
+    }
+    return elem->getVertex(i);
+}
 }
 
 namespace SEMBA {
@@ -208,10 +224,10 @@ std::pair<std::vector<Math::CVecR3>, std::map<Geometry::CoordId, std::size_t>>
     std::map<Geometry::CoordId, std::size_t> mapCoords;
     std::vector<Math::CVecR3> pos;
     for (std::size_t i = 0; i < elems.size(); i++) {
-        for (std::size_t j = 0; j < elems(i)->numberOfVertices(); j++) {
-            if (mapCoords.count(elems(i)->getVertex(j)->getId()) == 0) {
-                mapCoords[elems(i)->getVertex(j)->getId()] = pos.size();
-                pos.push_back(elems(i)->getVertex(j)->pos());
+        for (std::size_t j = 0; j < numberOfPoints(elems(i)); j++) {
+            if (mapCoords.count(getPoint(elems(i), j)->getId()) == 0) {
+                mapCoords[getPoint(elems(i), j)->getId()] = pos.size();
+                pos.push_back(getPoint(elems(i), j)->pos());
             }
         }
     }
@@ -251,8 +267,8 @@ void Exporter::writeCells_(
             << ">" << std::endl;
     outFile << "         ";
     for (std::size_t i = 0; i < elems.size(); i++) {
-        for (std::size_t j = 0; j < elems(i)->numberOfVertices(); j++) {
-            outFile << " " << mapCoords.at(elems(i)->getVertex(j)->getId());
+        for (std::size_t j = 0; j < numberOfPoints(elems(i)); j++) {
+            outFile << " " << mapCoords.at(getPoint(elems(i), j)->getId());
         }
     }
     outFile << std::endl;
@@ -266,7 +282,7 @@ void Exporter::writeCells_(
     outFile << "         ";
     std::size_t offset = 0;
     for (std::size_t i = 0; i < elems.size(); i++) {
-        offset += elems(i)->numberOfVertices();
+        offset += numberOfPoints(elems(i));
         outFile << " " << offset;
     }
     outFile << std::endl;
@@ -283,7 +299,7 @@ void Exporter::writeCells_(
         if (elems(i)->is<Geometry::Nod>()) {
             outFile << CELL_TYPES::VTK_VERTEX;
         } else if (elems(i)->is<Geometry::Lin>()) {
-            if (elems(i)->numberOfVertices() == 2) {
+            if (numberOfPoints(elems(i)) == 2) {
                 outFile << CELL_TYPES::VTK_LINE;
             } else {
                 outFile << CELL_TYPES::VTK_POLY_LINE;
-- 
2.43.0


From bc57023445936a6832058166b55010d5ab92e4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 120/146] fix: exporting to GiD a problem without geometry
 scaling crashed

---
 src/exporter/gid/Exporter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index 995e699..2c740b0 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -68,8 +68,12 @@ void Exporter::init_(
         throw std::logic_error("Invalid GiD exporting mode.");
     }
 
-    Math::Real scalingFactor =
-        smb->solver->getSettings()("geometryScalingFactor").getReal();
+    Math::Real scalingFactor = 0.0;
+    if (smb->solver != nullptr &&
+        smb->solver->getSettings().existsName("geometryScalingFactor")) {
+        scalingFactor =
+            smb->solver->getSettings()("geometryScalingFactor").getReal();
+    }
     if (scalingFactor != 0.0) {
         smb->mesh->applyScalingFactor(1.0 / scalingFactor);
     }
-- 
2.43.0


From 7687255e6bd0695fd577c0d0f505f7963b6b0f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 121/146] fix: exporting to GiD changed the scale of the
 problem's mesh

---
 src/exporter/gid/Exporter.cpp | 15 +++++++++++----
 src/exporter/gid/Exporter.h   |  2 +-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index 2c740b0..376ea74 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -21,6 +21,8 @@
 
 #include "Exporter.h"
 
+#include <memory>
+
 #include "geometry/element/Line2.h"
 #include "geometry/element/Triangle3.h"
 #include "geometry/element/Quadrilateral4.h"
@@ -75,9 +77,14 @@ void Exporter::init_(
             smb->solver->getSettings()("geometryScalingFactor").getReal();
     }
     if (scalingFactor != 0.0) {
-        smb->mesh->applyScalingFactor(1.0 / scalingFactor);
+        // The mesh of the problem keeps its scale.
+        std::unique_ptr<Geometry::Mesh::Mesh> scaled(
+            smb->mesh->cloneTo<Geometry::Mesh::Mesh>());
+        scaled->applyScalingFactor(1.0 / scalingFactor);
+        writeMesh_(smb, scaled.get());
+    } else {
+        writeMesh_(smb, smb->mesh);
     }
-    writeMesh_(smb);
 }
 
 Exporter::Exporter(
@@ -114,8 +121,8 @@ void Exporter::writeAllElements_(
     writeElements_(elem.getOf<Geometry::HexR8>(), name, GiD_Hexahedra, 8);
 }
 
-void Exporter::writeMesh_(const Data* smb) {
-    const Geometry::Mesh::Mesh* inMesh = smb->mesh;
+void Exporter::writeMesh_(const Data* smb,
+                          const Geometry::Mesh::Mesh* inMesh) {
     const PhysicalModel::Group<>* mat = smb->physicalModels;
     const Source::Group<>* srcs = smb->sources;
     const OutputRequest::Group<>* oRqs = smb->outputRequests;
diff --git a/src/exporter/gid/Exporter.h b/src/exporter/gid/Exporter.h
index 2414a3b..2295dbb 100755
--- a/src/exporter/gid/Exporter.h
+++ b/src/exporter/gid/Exporter.h
@@ -69,7 +69,7 @@ private:
     GiD_PostMode mode_;
 
     void init_(const Data* smb, GiD_PostMode mode, const std::string& fn);
-    void writeMesh_(const Data* smb);
+    void writeMesh_(const Data* smb, const Geometry::Mesh::Mesh* inMesh);
     void writeElements_(
             const Group::Group<const Geometry::ElemR>& entities,
             const std::string& name,
-- 
2.43.0


From eb2581ec932f6c1bad62467dcc5de2e9cac2c1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 122/146] fix: the GiD exporter flushed no file and closed its
 file twice

---
 src/exporter/gid/Exporter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index 376ea74..63c419f 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -107,7 +107,6 @@ Exporter::~Exporter() {
         GiD_PostDone();
     }
     numberOfOutputGiD_--;
-    GiD_fClosePostMeshFile(meshFile_);
 }
 
 void Exporter::writeAllElements_(
@@ -199,7 +198,7 @@ void Exporter::writeMesh_(const Data* smb,
     Group::Group<Geometry::ElemR> gridAux = getGridElems(cG, grid);
     writeAllElements_(gridAux, "Grid");
     //
-    GiD_FlushPostFile();
+    flushPostFile();
     //
     if (inMesh->is<Geometry::Mesh::Structured>()) {
         delete mesh;
-- 
2.43.0


From 8f3bb4f370d73c861c8d7b7896748fcb4b745e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 123/146] fix: a problem without materials was exported to GiD
 without elements

---
 src/exporter/gid/Exporter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index 63c419f..1b6c86a 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -142,6 +142,10 @@ void Exporter::writeMesh_(const Data* smb,
     // Writes materials.
     const Geometry::Layer::Group<>& lay = mesh->layers();
     for (std::size_t i = 0; i < lay.size(); i++) {
+        if (mat->size() == 0) {
+            writeAllElements_(mesh->elems().getLayerId(lay(i)->getId()),
+                              preName + lay(i)->getName());
+        }
         for (std::size_t j = 0; j < mat->size(); j++) {
             const MatId matId = (*mat)(j)->getId();
             const Geometry::LayerId layId = lay(i)->getId();
-- 
2.43.0


From e85f8b7ebf5179e4567379184827114c5924a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 124/146] fix: quadratic triangles and tetrahedra were not
 exported to GiD

---
 src/exporter/gid/Exporter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index 1b6c86a..2556a4d 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -114,9 +114,9 @@ void Exporter::writeAllElements_(
         const std::string& name) {
     writeElements_(elem.getOf<Geometry::NodR>(),  name, GiD_Point, 1);
     writeElements_(elem.getOf<Geometry::LinR2>(), name, GiD_Linear, 2);
-    writeElements_(elem.getOf<Geometry::Tri3>() , name, GiD_Triangle, 3);
+    writeElements_(elem.getOf<Geometry::Tri>(), name, GiD_Triangle, 3);
     writeElements_(elem.getOf<Geometry::QuaR4>(), name, GiD_Quadrilateral, 4);
-    writeElements_(elem.getOf<Geometry::Tet4>(),  name, GiD_Tetrahedra, 4);
+    writeElements_(elem.getOf<Geometry::Tet>(), name, GiD_Tetrahedra, 4);
     writeElements_(elem.getOf<Geometry::HexR8>(), name, GiD_Hexahedra, 8);
 }
 
-- 
2.43.0


From adaa53d370bbb7cb4cb1a9889d60a8b113518b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 125/146] fix: names with line breaks made GiD meshes
 unreadable

---
 src/exporter/gid/Exporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index 2556a4d..67368c6 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -219,7 +219,7 @@ void Exporter::writeElements_(
     }
     Math::UInt tmpCounter = coordCounter_;
     std::vector<int> nId(nV);
-    beginMesh(name, GiD_3D, type, nV);
+    beginMesh(makeValid_(name), GiD_3D, type, nV);
     std::map<Geometry::CoordId, Geometry::CoordR3*> pos;
     for(std::size_t i = 0; i < elem.size(); i++) {
         for (Math::Int j = 0; j < nV; j++) {
-- 
2.43.0


From 6db93ad40cdfb9dd9c58c8e13fb4de6679b0ee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 126/146] fix: GiD meshes kept six digits of the positions

---
 external/gidpost/gidpostInt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/external/gidpost/gidpostInt.c b/external/gidpost/gidpostInt.c
index ddc53c9..50bfab6 100755
--- a/external/gidpost/gidpostInt.c
+++ b/external/gidpost/gidpostInt.c
@@ -481,7 +481,7 @@ int CPostAscii_WriteValuesVA(CPostFile* this, int id, int num_comp, va_list ap)
     fprintf(this->m_FILE, "%d", id);
   for (i = 0; i < num_comp; i++) {
     value = va_arg(ap, double);
-    fprintf(this->m_FILE, " %g", value);
+    fprintf(this->m_FILE, " %.15g", value);
   }
   fprintf(this->m_FILE, "\n");
   this->m_LastID = id;
@@ -707,7 +707,7 @@ int CPostAsciiZ_WriteValuesVA(CPostFile* this, int id, int num_comp, va_list ap)
     gzprintf(this->m_FILE, "%d", id);
   for (i = 0; i < num_comp; i++) {
     value = va_arg(ap, double);
-    gzprintf(this->m_FILE, " %g", value);
+    gzprintf(this->m_FILE, " %.15g", value);
   }
   gzprintf(this->m_FILE, "\n");
   this->m_LastID = id;
-- 
2.43.0


From 0fee8de2f8d77ad23087ee8ca0110f00460c7e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:29 +0000
Subject: [PATCH 127/146] fix: GiD files which could not be written went
 unnoticed

---
 src/exporter/gid/Exporter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index 67368c6..6de2e3a 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -69,6 +69,13 @@ void Exporter::init_(
     default:
         throw std::logic_error("Invalid GiD exporting mode.");
     }
+    if (meshFile_ == 0) {
+        numberOfOutputGiD_--;
+        if (numberOfOutputGiD_ == 0) {
+            GiD_PostDone();
+        }
+        throw std::ios_base::failure(fn + " could not be written.");
+    }
 
     Math::Real scalingFactor = 0.0;
     if (smb->solver != nullptr &&
-- 
2.43.0


From 442cf5d77c65bd9b94d8e8c251f5924139ebebd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 128/146] fix: a wire all of whose ends are left by connectors
 or lines pointing away is no longer cut in two when wires are grouped

---
 src/core/util/wire/Group.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/core/util/wire/Group.hpp b/src/core/util/wire/Group.hpp
index 9364b81..9bec4de 100755
--- a/src/core/util/wire/Group.hpp
+++ b/src/core/util/wire/Group.hpp
@@ -240,15 +240,18 @@ std::vector<std::vector<const Geometry::Element::Line<T>*>>
     std::set<Geometry::ElemId> visLines;
     const typename Graph::GraphElem *prevSegment, *nextSegment;
     Geometry::ElemId prvNodeId;
-    for (std::size_t n = 1; n < 3; n++) {
-        // First we look for coordinates with only one incident line (n == 1)
-        // that has not been visited. After (n == 2) we look for the circular
+    for (std::size_t n = 0; n < 3; n++) {
+        // First we look for coordinates with only one incident line that has
+        // not been visited, either as first (n == 0) or as second (n == 1)
+        // coordinate of that line. After (n == 2) we look for the circular
         // wires.
+        const std::size_t b = (n == 1) ? 1 : 0;
+        const std::size_t incident = (n == 2) ? 2 : 1;
         for (std::size_t i = 0; i < graph.numElems(); i++) {
-            if ((graph.elem(i)->getBound(0)->numBounds() == n) &&
+            if ((graph.elem(i)->getBound(b)->numBounds() == incident) &&
                 (visLines.count(graph.elem(i)->elem()->getId()) == 0)) {
-                // We enter here when we find an unvisited line whose first
-                // coordinate has a number n of incident lines
+                // We enter here when we find an unvisited line which has
+                // the number of incident lines looked for
                 std::vector<const Geometry::Element::Line<T>*> wireLines;
                 nextSegment = graph.elem(i);
                 // We search every line that make up the wire from the line
-- 
2.43.0


From 9af3f3f791dfc07b7ec473653b76fe766bbe363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 129/146] fix: a wire whose material has its own ends keeps
 them at their ends when its lines are visited backwards

---
 src/core/util/wire/Group.h   |  3 ++-
 src/core/util/wire/Group.hpp | 15 +++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/core/util/wire/Group.h b/src/core/util/wire/Group.h
index ca2420c..4102136 100755
--- a/src/core/util/wire/Group.h
+++ b/src/core/util/wire/Group.h
@@ -107,7 +107,8 @@ private:
                       const Graph&);
     Geometry::Element::Polyline<T>* newWire_(
             const std::vector<const Geometry::Element::Line<T>*>& lines,
-            PhysicalModel::Wire::Extremes* mat);
+            PhysicalModel::Wire::Extremes* mat,
+            const bool ownExtremes);
 };
 
 }
diff --git a/src/core/util/wire/Group.hpp b/src/core/util/wire/Group.hpp
index 9bec4de..d8c6c74 100755
--- a/src/core/util/wire/Group.hpp
+++ b/src/core/util/wire/Group.hpp
@@ -206,7 +206,8 @@ void Group<T>::fillWiresInfo_(const typename Group<T>::Graph& graph,
         // We get the wire material with extremes of the wire, creating it if
         // it does not exist.
         PhysicalModel::Wire::Extremes* wireExtremes;
-        if (wireMat->is<PhysicalModel::Wire::Extremes>()) {
+        const bool ownExtremes = wireMat->is<PhysicalModel::Wire::Extremes>();
+        if (ownExtremes) {
             wireExtremes = wireMat->cloneTo<PhysicalModel::Wire::Extremes>();
         } else {
             if (numWireMat.count(wireMat) == 0) {
@@ -223,7 +224,8 @@ void Group<T>::fillWiresInfo_(const typename Group<T>::Graph& graph,
         mats_[wireExtremes->getId()] = wireExtremes;
         // The wire is created and stored
         Geometry::Element::Polyline<T>* newWire = newWire_(wires[i],
-                                                           wireExtremes);
+                                                           wireExtremes,
+                                                           ownExtremes);
         if (newWire != nullptr) {
             wires_.push_back(newWire);
         }
@@ -400,7 +402,8 @@ template<class T>
 Geometry::Element::Polyline<T>*
     Group<T>::newWire_(
         const std::vector<const Geometry::Element::Line<T>*>& lines,
-        PhysicalModel::Wire::Extremes* mat) {
+        PhysicalModel::Wire::Extremes* mat,
+        const bool ownExtremes) {
     // This function creates the polyline of the wire and also fills the
     // information of the ElementIds that make it up and if the segments are
     // inverted in the original mesh
@@ -496,7 +499,11 @@ Geometry::Element::Polyline<T>*
     wiresRev_.push_back(wireRev);
     if (rev) {
         std::reverse(v.begin(), v.end());
-        mat->swapExtremes();
+        if (!ownExtremes) {
+            // They were found in the order in which the lines were visited.
+            // The ones of the material follow the direction of its lines.
+            mat->swapExtremes();
+        }
     }
     return new Geometry::Element::Polyline<T>(
                     Geometry::ElemId(wires_.size() + 1), v, lay, mat);
-- 
2.43.0


From ce097697e7d83a6d71b2e0e11458a25868b1c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 130/146] fix: after its first line a paragraph of the usage or
 help had one word per line

---
 src/core/argument/Formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index 40aaeec..acaefa6 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -247,7 +247,7 @@ void Formatter::printParagraph_(const std::string& str,
         }
         if (newPos > max && !first) {
             std::cout << std::endl << std::string(min, ' ') << word;
-            pos = newPos;
+            pos = min + word.size();
         } else {
             if (!first) {
                 std::cout << " ";
-- 
2.43.0


From fb95d8411c659f643aaa392e93640bac6a8b8d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 131/146] fix: help of an argument was continued under its name
 and beyond the width of the console

---
 src/core/argument/Formatter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index acaefa6..a033899 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -362,7 +362,8 @@ void Formatter::printArg_(const std::string& arg,
         }
         printParagraph_(
             replaceChoices_(replaceDefault_(replaceProg_(help), def),
-                            choices));
+                            choices),
+            tab, tab);
     } else {
         std::cout << std::endl;
     }
-- 
2.43.0


From 0707aa0c28e49be8a63071ffe31c53135f258b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 132/146] fix: width of the console was asked to the standard
 input, which may be none

---
 src/core/argument/Formatter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index a033899..8a1152b 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -276,8 +276,9 @@ std::size_t Formatter::getConsoleSize_() {
         return size;
     }
     struct winsize w;
-    ioctl(0, TIOCGWINSZ, &w);
-    size = w.ws_col;
+    if (ioctl(fileno(stdout), TIOCGWINSZ, &w) == 0 && w.ws_col != 0) {
+        size = w.ws_col;
+    }
 #endif
     return size;
 }
-- 
2.43.0


From 0a5e68eabcebe8ade5dd5dea401a634e32bdf5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 133/146] fix: a switch that may be repeated could not be
 copied

---
 src/core/argument/MultiSwitch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/MultiSwitch.cpp b/src/core/argument/MultiSwitch.cpp
index 02653e2..1d36257 100755
--- a/src/core/argument/MultiSwitch.cpp
+++ b/src/core/argument/MultiSwitch.cpp
@@ -58,7 +58,7 @@ MultiSwitch::MultiSwitch(const std::string& name,
 
 MultiSwitch::MultiSwitch(const MultiSwitch& rhs)
 :   Argument(rhs),
-    SwitchBase(rhs) {
+    OptionBase(rhs) {
     hasDefault_ = rhs.hasDefault_;
     default_    = rhs.default_;
 }
-- 
2.43.0


From 2b42f03bbf011bf6ff0c0842d2a388fda41693d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 134/146] fix: GiD template writes the export options with the
 procedure that exists

---
 gui/gid/semba.gid/semba.bas | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gui/gid/semba.gid/semba.bas b/gui/gid/semba.gid/semba.bas
index 68daf37..1dab26c 100755
--- a/gui/gid/semba.gid/semba.bas
+++ b/gui/gid/semba.gid/semba.bas
@@ -45,8 +45,8 @@
             "unwantedConnectionsInfo": *tcl(semba::intToBool *GenData(Unwanted_connections_info)),
             "structuredCellsInfo": *tcl(semba::intToBool *GenData(Structured_Cells_info)),
             "vtkExport": *tcl(semba::intToBool *GenData(VTK_Export)),
-            "postmshExport": *tcl(semba:intToBool * GenData(postmsh_Export)),
-            "postsmbExport": *tcl(semba:intToBool * GenData(postsmb_Export)),
+            "postmshExport": *tcl(semba::intToBool *GenData(postmsh_Export)),
+            "postsmbExport": *tcl(semba::intToBool *GenData(postsmb_Export)),
             "mesher": "*GenData(Mesher)",
             "mode": "*GenData(Mode)",
             "subgridPoints": *GenData(Subgrid_points),
-- 
2.43.0


From dfa0fffd2507320c4004ccd94832e0967b71f11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 135/146] fix: GiD front end asks about slanted wires under the
 name it uses

---
 gui/gid/semba.gid/semba.bas | 2 +-
 gui/gid/semba.gid/semba.prb | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gui/gid/semba.gid/semba.bas b/gui/gid/semba.gid/semba.bas
index 1dab26c..6eb27f6 100755
--- a/gui/gid/semba.gid/semba.bas
+++ b/gui/gid/semba.gid/semba.bas
@@ -52,7 +52,7 @@
             "subgridPoints": *GenData(Subgrid_points),
             "snap": *tcl(semba::intToBool *GenData(snap)),
             "forbiddenLength": *GenData(Forbidden_length),
-            "slantedWires": *tcl(semba::intToBool *GenData(Slanted)),
+            "slantedWires": *tcl(semba::intToBool *GenData(Slanted_wires)),
             "slantedThreshold": *GenData(Segments_filter_threshold)
         }
 *elseif(strcasecmp(GenData(Solver),"cudg3d")==0)
diff --git a/gui/gid/semba.gid/semba.prb b/gui/gid/semba.gid/semba.prb
index 86c5b53..f1259cb 100755
--- a/gui/gid/semba.gid/semba.prb
+++ b/gui/gid/semba.gid/semba.prb
@@ -50,8 +50,8 @@ QUESTION: Composites_model#CB#(MIBC,SGBC)
 VALUE: MIBC
 QUESTION: Wires_flavor#CB#(holland,berenger,guiffaut)
 VALUE: holland
-DEPENDENCIES: (holland,  RESTORE, MTLN, #CURRENT#, HIDE,    Min_distance_wires,#CURRENT#, RESTORE, Slanted, 0)
-DEPENDENCIES: (berenger, RESTORE, MTLN, #CURRENT#, RESTORE, Min_distance_wires,#CURRENT#, RESTORE, Slanted, 0)
+DEPENDENCIES: (holland,  RESTORE, MTLN, #CURRENT#, HIDE,    Min_distance_wires,#CURRENT#, RESTORE, Slanted_wires, 0)
+DEPENDENCIES: (berenger, RESTORE, MTLN, #CURRENT#, RESTORE, Min_distance_wires,#CURRENT#, RESTORE, Slanted_wires, 0)
 DEPENDENCIES: (guiffaut, HIDE,    MTLN, #CURRENT#, HIDE,    Min_distance_wires,#CURRENT#)
 QUESTION: MTLN#CB#(0,1)
 VALUE: 0
-- 
2.43.0


From f7d50a9b5f7c59266ace9c6c810d380403f428f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 136/146] fix: MUR upper boundaries release the lower boundary
 of their own axis

---
 gui/gid/semba.gid/semba.prb | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gui/gid/semba.gid/semba.prb b/gui/gid/semba.gid/semba.prb
index f1259cb..d818216 100755
--- a/gui/gid/semba.gid/semba.prb
+++ b/gui/gid/semba.gid/semba.prb
@@ -140,16 +140,16 @@ DEPENDENCIES: (Periodic, SET,    Lower_x_bound,Periodic)
 DEPENDENCIES: (PML,      RESTORE,Lower_x_bound,#CURRENT#)
 DEPENDENCIES: (PEC,      RESTORE,Lower_x_bound,#CURRENT#)
 DEPENDENCIES: (PMC,      RESTORE,Lower_x_bound,#CURRENT#)
-DEPENDENCIES: (MUR1,     RESTORE,Lower_z_bound,#CURRENT#)
-DEPENDENCIES: (MUR2,     RESTORE,Lower_z_bound,#CURRENT#)
+DEPENDENCIES: (MUR1,     RESTORE,Lower_x_bound,#CURRENT#)
+DEPENDENCIES: (MUR2,     RESTORE,Lower_x_bound,#CURRENT#)
 QUESTION: Upper_y_bound#CB#(PML,PEC,PMC,MUR1,MUR2,Periodic)
 VALUE: PML
 DEPENDENCIES: (Periodic, SET,    Lower_y_bound,Periodic)
 DEPENDENCIES: (PML,      RESTORE,Lower_y_bound,#CURRENT#)
 DEPENDENCIES: (PEC,      RESTORE,Lower_y_bound,#CURRENT#)
 DEPENDENCIES: (PMC,      RESTORE,Lower_y_bound,#CURRENT#)
-DEPENDENCIES: (MUR1,     RESTORE,Lower_z_bound,#CURRENT#)
-DEPENDENCIES: (MUR2,     RESTORE,Lower_z_bound,#CURRENT#)
+DEPENDENCIES: (MUR1,     RESTORE,Lower_y_bound,#CURRENT#)
+DEPENDENCIES: (MUR2,     RESTORE,Lower_y_bound,#CURRENT#)
 QUESTION: Upper_z_bound#CB#(PML,PEC,PMC,MUR1,MUR2,Periodic)
 VALUE: PML
 DEPENDENCIES: (Periodic, SET,    Lower_z_bound,Periodic)
-- 
2.43.0


From d3ff91d416492a268e2035ea8381e52b89ba2654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 137/146] fix: GiD template writes anisotropic materials with
 their axes and model

---
 gui/gid/semba.gid/semba.bas | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gui/gid/semba.gid/semba.bas b/gui/gid/semba.gid/semba.bas
index 6eb27f6..a653cd0 100755
--- a/gui/gid/semba.gid/semba.bas
+++ b/gui/gid/semba.gid/semba.bas
@@ -177,17 +177,17 @@
             "numberOfPoles": *matProp(number_Of_Poles),
             "useSembaVectorFitting": *tcl(semba::intToBool *matProp(Use_semba_vector_fitting))
 *elseif(strcmp(Matprop(TypeId),"Anisotropic")==0)
-            "materialType": "*MatProp(TypeId)"
+            "materialType": "*MatProp(TypeId)",
 *if(strcmp(MatProp(Local_Axes),"-GLOBAL-")==0)
             "localAxes": "{0.0 0.0 0.0} {0.0 0.0 0.0}",
 *else
-            "localAxes": "*tcl([lindex [GiD_Info localaxes *matprop(Local_Axes)] 9])",
+            "localAxes": "*tcl(GiD_Info localaxes *matprop(Local_Axes))",
 *endif
             "anisotropicModel": "*matprop(Anisotropic_model)",
-*if(strcmp(MatProp(anisotropicModel),"Crystal")==0)
+*if(strcmp(MatProp(Anisotropic_model),"Crystal")==0)
             "relativePermittivityPrincipalAxes": "*matprop(Relative_permittivity_principal_axes)",
             "crystalRelativePermeability": *matprop(Crystal_relative_permeability)
-*elseif(strcmp(MatProp(anisotropicModel),"Ferrite")==0)
+*elseif(strcmp(MatProp(Anisotropic_model),"Ferrite")==0)
             "kappa": *matprop(Kappa),
             "ferriteRelativePermeability": *matprop(Ferrite_relative_permeability),
             "ferriteRelativePermittivity": *matprop(Ferrite_relative_permittivity)
-- 
2.43.0


From 51bc9d6c59c8685f5adab8d3665bf3db038a0bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 138/146] fix: GiD template writes surface impedances given by
 a file

---
 gui/gid/semba.gid/semba.bas | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gui/gid/semba.gid/semba.bas b/gui/gid/semba.gid/semba.bas
index a653cd0..0c78896 100755
--- a/gui/gid/semba.gid/semba.bas
+++ b/gui/gid/semba.gid/semba.bas
@@ -149,9 +149,8 @@
             "materialType": "*MatProp(TypeId)",
             "surfaceType": "*matprop(SurfaceType)",
 *if(strcmp(Matprop(SurfaceType),"File")==0)
-            "materialType": "*MatProp(TypeId)",   
             "filename": *tcl(json::write string *matprop(File))
-*endif
+*else
 *if(matprop(Layers,int)==1)
 *warningbox "Multilayer did not contain layers"
             "_error": "Multilayer did not contain layers",
@@ -176,6 +175,7 @@
             "freqMax": *matProp(freq_max),
             "numberOfPoles": *matProp(number_Of_Poles),
             "useSembaVectorFitting": *tcl(semba::intToBool *matProp(Use_semba_vector_fitting))
+*endif
 *elseif(strcmp(Matprop(TypeId),"Anisotropic")==0)
             "materialType": "*MatProp(TypeId)",
 *if(strcmp(MatProp(Local_Axes),"-GLOBAL-")==0)
-- 
2.43.0


From 679234a2c974fbc55b66750ce177f4dbab9fbb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 139/146] fix: GiD template writes skip and direction of bulk
 currents only

---
 gui/gid/semba.gid/semba.bas | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gui/gid/semba.gid/semba.bas b/gui/gid/semba.gid/semba.bas
index 0c78896..dcc51af 100755
--- a/gui/gid/semba.gid/semba.bas
+++ b/gui/gid/semba.gid/semba.bas
@@ -627,7 +627,7 @@
             "gidOutputType": "OutRq_on_layer",
             "name": "*cond(Name)",
             "type": "*cond(Type)",
-*if(strcasecmp(Cond(Type),"bulkCurrentElectric")==0 || strcasecmp(Cond(Type),"bulkCurrentMagnetic"))
+*if(strcasecmp(Cond(Type),"bulkCurrentElectric")==0 || strcasecmp(Cond(Type),"bulkCurrentMagnetic")==0)
             "skip": *cond(Skip),
             "direction": "*cond(Direction)",
 *endif
-- 
2.43.0


From 621fcf8451608a338b9253da2ab222e5402f4515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 140/146] fix: GiD template writes a far field request per
 layer

---
 gui/gid/semba.gid/semba.bas | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gui/gid/semba.gid/semba.bas b/gui/gid/semba.gid/semba.bas
index dcc51af..36b396f 100755
--- a/gui/gid/semba.gid/semba.bas
+++ b/gui/gid/semba.gid/semba.bas
@@ -639,9 +639,9 @@
 *# ----------------------------------------------------------
 *Set cond Far_field
 *if(CondNumEntities(int)>0)
+*loop layers *OnlyInCond
         { 
             "gidOutputType": "Far_field",
-*loop layers *OnlyInCond
             "name": "*cond(Name)",
             "type": "*cond(Type)",
 *include includes/domain.bas
@@ -652,8 +652,8 @@
             "initialPhi":   *cond(Initial_phi),
             "finalPhi":     *cond(Final_phi),
             "stepPhi":      *cond(Step_phi)
-*end layers
         }*tcl(semba::printCommaIfPendingOutRq)
+*end layers
 *end if
     ]
 *# ----------------------------------------------------------
-- 
2.43.0


From a9e2376aaef11a8075be775e59e8a152850a36be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 141/146] fix: GiD template separates sources on lines from the
 ports after them

---
 gui/gid/semba.gid/semba.bas | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gui/gid/semba.gid/semba.bas b/gui/gid/semba.gid/semba.bas
index 36b396f..19d27e5 100755
--- a/gui/gid/semba.gid/semba.bas
+++ b/gui/gid/semba.gid/semba.bas
@@ -544,6 +544,9 @@
 *set var sourceNum = sourceNum + 1
 *end elems
 *tcl(semba::writeSourceOnLineBAS)
+*if(sourceNum != nSources)
+        ,
+*endif
 *endif
 *# ----------------------------------------------------------
 *set cond Waveguide_port *bodyElements
-- 
2.43.0


From b9fed905b48b874d5c32bc7bd3108bbf4f10d4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 142/146] fix: GiD template writes each port on its own

---
 gui/gid/semba.gid/semba.bas | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/gui/gid/semba.gid/semba.bas b/gui/gid/semba.gid/semba.bas
index 19d27e5..cc34fc3 100755
--- a/gui/gid/semba.gid/semba.bas
+++ b/gui/gid/semba.gid/semba.bas
@@ -551,10 +551,14 @@
 *# ----------------------------------------------------------
 *set cond Waveguide_port *bodyElements
 *if(strcasecmp(condName,"Waveguide_port")==0&&condNumEntities>0)
-*set var HEADER = 0
+*set var ENTITY = 0
 *loop elems *onlyInCond
-*if(HEADER == 0)
-*set var HEADER = 1
+*if(ENTITY != cond(entityId,INT))
+*if(ENTITY != 0)
+            ]
+        },
+*endif
+*set var ENTITY = cond(entityId,INT)
         {
             "sourceType": "waveguidePort",
             "shape": "*cond(Shape)",
@@ -563,11 +567,9 @@
             "firstMode":  *cond(FirstMode),
             "secondMode": *cond(SecondMode),
             "elemIds": [
-*endif
-*if(loopVar != condNumEntities)
-                *ElemsNum,
-*else
                 *ElemsNum
+*else
+                , *ElemsNum
 *endif
 *set var sourceNum = sourceNum + 1
 *end elems
@@ -583,7 +585,11 @@
 *if(strcasecmp(condName,"TEM_port")==0&&condNumEntities>0)
 *set var ENTITY = 0
 *loop elems *onlyInCond
-*if(ENTITY == 0)
+*if(ENTITY != cond(entityId,INT))
+*if(ENTITY != 0)
+            ]
+        },
+*endif
 *set var ENTITY = cond(entityId,INT)
         {
             "sourceType": "temPort",
@@ -593,11 +599,9 @@
             "outerRadius": *cond(Outer_radius),
             "excitationMode": "*cond(Mode)",
             "elemIds": [
-*endif
-*if(loopVar != condNumEntities)
-                *ElemsNum,
-*else
                 *ElemsNum
+*else
+                , *ElemsNum
 *endif
 *set var sourceNum = sourceNum + 1
 *end elems
-- 
2.43.0


From a647c083acde14d59f3d8c0626955b8c3708c89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 143/146] fix: GiD launcher runs the solver whatever the names
 of its folders

---
 gui/gid/semba.gid/semba.unix.bat | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gui/gid/semba.gid/semba.unix.bat b/gui/gid/semba.gid/semba.unix.bat
index 6f5b4c2..e54e35d 100755
--- a/gui/gid/semba.gid/semba.unix.bat
+++ b/gui/gid/semba.gid/semba.unix.bat
@@ -9,13 +9,13 @@ PROBLEMTYPE_PATH=$3
 
 SEMBA="$PROBLEMTYPE_PATH/bin/semba"
 echo "Path to command: " > "$PROJECT_NAME.log"
-echo $SEMBA >> "$PROJECT_NAME.log"
+echo "$SEMBA" >> "$PROJECT_NAME.log"
 
-echo "Project name: " $PROJECT_NAME >> "$PROJECT_NAME.log"
-echo "Project path: " $PROJECT_PATH >> "$PROJECT_NAME.log"
-echo "Problem type path: " $PROBLEMTYPE_PATH >> "$PROJECT_NAME.log"
+echo "Project name: $PROJECT_NAME" >> "$PROJECT_NAME.log"
+echo "Project path: $PROJECT_PATH" >> "$PROJECT_NAME.log"
+echo "Problem type path: $PROBLEMTYPE_PATH" >> "$PROJECT_NAME.log"
 
 SEMBA_COMMAND="$SEMBA -i $PROJECT_PATH/$PROJECT_NAME.dat"
 echo "$SEMBA_COMMAND"
 echo "$SEMBA_COMMAND" >> "$PROJECT_NAME.log"
-$SEMBA -i "$PROJECT_PATH/$PROJECT_NAME.dat" >> $1.log 2> $1.err
+"$SEMBA" -i "$PROJECT_PATH/$PROJECT_NAME.dat" >> "$PROJECT_NAME.log" 2> "$PROJECT_NAME.err"
-- 
2.43.0


From d626c7e8fd714d7c0b862890193cc6f9aed46f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 144/146] fix: figures are rectangular whatever their size and
 direction

---
 src/core/geometry/element/Surface.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Surface.hpp b/src/core/geometry/element/Surface.hpp
index 8ea7bee..02582b0 100755
--- a/src/core/geometry/element/Surface.hpp
+++ b/src/core/geometry/element/Surface.hpp
@@ -47,8 +47,13 @@ bool Surface<T>::isRectangular() const {
             this->getSideVertex(f    %4,1)->pos();
         Math::Vector::Cartesian<T,3> p2 = 
             this->getSideVertex((f+1)%4,1)->pos();
-        Math::Real sProd = (Math::Real)(p2-p1).dot(p1 - p0);
-        if (Math::Util::notEqual(sProd, 0.0, 1.0)) {
+        const Math::Vector::Cartesian<T,3> s0 = p1 - p0;
+        const Math::Vector::Cartesian<T,3> s1 = p2 - p1;
+        // Right angles are those of any size, up to rounding errors.
+        const Math::Real lengths = std::sqrt((Math::Real) s0.dot(s0)) *
+                                   std::sqrt((Math::Real) s1.dot(s1));
+        if (std::abs((Math::Real) s0.dot(s1)) >
+            Math::Util::tolerance * lengths) {
             return false;
         }
     }
-- 
2.43.0


From 7bd5b793138672b12fcc661af2a88f3c5e2f94bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 145/146] fix: a refused vertex leaves a conformal line as it
 was

---
 src/core/geometry/element/LineConformal.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/element/LineConformal.cpp b/src/core/geometry/element/LineConformal.cpp
index 06e3334..c4d2187 100755
--- a/src/core/geometry/element/LineConformal.cpp
+++ b/src/core/geometry/element/LineConformal.cpp
@@ -71,8 +71,10 @@ const CoordConf* LineConformal::getV(const std::size_t i) const {
 }
 
 void LineConformal::setV(const std::size_t i, const CoordI3* coord) {
+    if (!coord->is<CoordConf>()) {
+        throw Error::Coord::NotConf(coord->getId());
+    }
     LinI2::setV(i, coord);
-    checkCoordinates();
 }
 
 void LineConformal::printInfo() const {
-- 
2.43.0


From d8ac0214f7894dba5bd2944b2712f6385a025370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:25 +0000
Subject: [PATCH 146/146] fix: points inside tetrahedra far from the origin

---
 src/core/geometry/element/Tetrahedron4.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/geometry/element/Tetrahedron4.cpp b/src/core/geometry/element/Tetrahedron4.cpp
index 108e5c5..c01b7bf 100755
--- a/src/core/geometry/element/Tetrahedron4.cpp
+++ b/src/core/geometry/element/Tetrahedron4.cpp
@@ -64,10 +64,12 @@ bool Tetrahedron4::isInnerPoint(const Math::CVecR3& pos) const {
     // Checks if point is inside a tetrahedron using the following algorithm:
     // http://steve.hollasch.net/cgindex/geometry/ptintet.html
     Math::Matrix::Static<Math::Real,4,4> mat;
+    // Positions are taken relative to pos, so that no precision is lost when
+    // the element is far from the origin.
     // Builds matrix D0.
     for (std::size_t i = 0; i < 4; i++) {
         for (std::size_t j = 0; j < 3; j++) {
-            mat(i,j) = getVertex(i)->pos()(j);
+            mat(i,j) = getVertex(i)->pos()(j) - pos(j);
         }
         mat(i,3) = (Math::Real) 1.0;
     }
@@ -78,13 +80,13 @@ bool Tetrahedron4::isInnerPoint(const Math::CVecR3& pos) const {
     for (std::size_t k = 0; k < 4; k++) {
         // Copies pos in row k.
         for (std::size_t j = 0; j < 3; j++) {
-            mat(k,j) = pos(j);
+            mat(k,j) = (Math::Real) 0.0;
         }
         // Copies rest of vertices.
         for (std::size_t i = 0; i < 4; i++) {
             if (i != k) {
                 for (std::size_t j = 0; j < 3; j++) {
-                    mat(i,j) = getVertex(i)->pos()(j);
+                    mat(i,j) = getVertex(i)->pos()(j) - pos(j);
                 }
             }
         }
-- 
2.43.0

