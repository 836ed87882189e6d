From e4d3dbdc566873bc5b6bd60b2878ca97e2d0da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 01/53] fix: image of points exactly on a box face agrees with
 wrap

get_images gave -1 (and contains False) at fractional coordinate 0, which wrap
leaves in place, so unwrap(wrap(v), get_images(v)) did not return v.
---
 freud/box/Box.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index 7578ba5..7a91a02 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -275,14 +275,11 @@ public:
      */
     void getImage(const vec3<float>& v, vec3<int>& image) const
     {
-        vec3<float> f = makeFractional(v) - vec3<float>(0.5, 0.5, 0.5);
-        if (m_2d)
-        {
-            f.z = float(0.0);
-        }
-        image.x = (int) ((f.x >= float(0.0)) ? f.x + float(0.5) : f.x - float(0.5));
-        image.y = (int) ((f.y >= float(0.0)) ? f.y + float(0.5) : f.y - float(0.5));
-        image.z = (int) ((f.z >= float(0.0)) ? f.z + float(0.5) : f.z - float(0.5));
+        // The image is whatever wrap() removes, so that both agree at the box faces.
+        const vec3<float> f = makeFractional(v);
+        image.x = (int) std::round(f.x - util::modulusPositive(f.x, float(1.0)));
+        image.y = (int) std::round(f.y - util::modulusPositive(f.y, float(1.0)));
+        image.z = (int) std::round(f.z - util::modulusPositive(f.z, float(1.0)));
     }
 
     //! Get the periodic image vectors belongs to
-- 
2.43.0


From bd8436bf7115a24611212057a28738abc03201f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 02/53] fix: Box.periodic accepts the flags Box.periodic
 returns

The setters rejected numpy booleans, so box.periodic = other.periodic raised.
---
 freud/box.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/freud/box.py b/freud/box.py
index 8280930..988ad1c 100644
--- a/freud/box.py
+++ b/freud/box.py
@@ -568,12 +568,12 @@ class Box:  # noqa: PLW1641
 
     @periodic.setter
     def periodic(self, periodic):
-        # Allow passing a single value
-        try:
-            self._cpp_obj.setPeriodic(periodic[0], periodic[1], periodic[2])
-        except TypeError:
+        if np.ndim(periodic) == 0:
             # Allow single value to be passed for all directions
-            self._cpp_obj.setPeriodic(periodic, periodic, periodic)
+            periodic = (periodic, periodic, periodic)
+        self._cpp_obj.setPeriodic(
+            bool(periodic[0]), bool(periodic[1]), bool(periodic[2])
+        )
 
     @property
     def periodic_x(self):
@@ -582,7 +582,7 @@ class Box:  # noqa: PLW1641
 
     @periodic_x.setter
     def periodic_x(self, periodic):
-        self._cpp_obj.setPeriodicX(periodic)
+        self._cpp_obj.setPeriodicX(bool(periodic))
 
     @property
     def periodic_y(self):
@@ -591,7 +591,7 @@ class Box:  # noqa: PLW1641
 
     @periodic_y.setter
     def periodic_y(self, periodic):
-        self._cpp_obj.setPeriodicY(periodic)
+        self._cpp_obj.setPeriodicY(bool(periodic))
 
     @property
     def periodic_z(self):
@@ -600,7 +600,7 @@ class Box:  # noqa: PLW1641
 
     @periodic_z.setter
     def periodic_z(self, periodic):
-        self._cpp_obj.setPeriodicZ(periodic)
+        self._cpp_obj.setPeriodicZ(bool(periodic))
 
     def to_dict(self):
         r"""Return box as dictionary.
-- 
2.43.0


From ea3e63188e20b7c7db14f251b34a706af3881a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 03/53] fix: setting Box.dimensions keeps the box consistent

Setting dimensions to 3 on a 3D box zeroed Lz, and setting it to 2 left the
old half height in the coordinate transforms, which shifted x and y of boxes
with xz or yz tilt.
---
 freud/box/Box.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index 7a91a02..34aa74b 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -118,8 +118,11 @@ public:
     void set2D(bool _2d)
     {
         m_2d = _2d;
-        m_L.z = 0;
-        m_Linv.z = 0;
+        if (m_2d)
+        {
+            // Drop Lz from all derived quantities.
+            setL(m_L.x, m_L.y, 0);
+        }
     }
 
     //! Returns whether box is two dimensional
-- 
2.43.0


From 8ff14f68b6cabd90986606ba20b65d24401de2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 04/53] fix: scaling a Box keeps its periodic flags

---
 freud/box.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/box.py b/freud/box.py
index 988ad1c..2c28756 100644
--- a/freud/box.py
+++ b/freud/box.py
@@ -699,7 +699,7 @@ class Box:  # noqa: PLW1641
 
     def __mul__(self, scale):
         if scale > 0:
-            return self.__class__(
+            scaled = self.__class__(
                 Lx=self.Lx * scale,
                 Ly=self.Ly * scale,
                 Lz=self.Lz * scale,
@@ -708,6 +708,8 @@ class Box:  # noqa: PLW1641
                 yz=self.yz,
                 is2D=self.is2D,
             )
+            scaled.periodic = self.periodic
+            return scaled
         msg = "Box can only be multiplied by positive values."
         raise ValueError(msg)
 
-- 
2.43.0


From 08778d0196340649b86bd0bd0ed27f6393933699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 05/53] fix: Box.from_box of a Box keeps its periodic flags

---
 freud/box.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/freud/box.py b/freud/box.py
index 2c28756..940b747 100644
--- a/freud/box.py
+++ b/freud/box.py
@@ -842,7 +842,10 @@ class Box:  # noqa: PLW1641
         if dimensions is None:
             dimensions = 2 if Lz == 0 else 3
         is2D = dimensions == 2
-        return cls(Lx=Lx, Ly=Ly, Lz=Lz, xy=xy, xz=xz, yz=yz, is2D=is2D)
+        new_box = cls(Lx=Lx, Ly=Ly, Lz=Lz, xy=xy, xz=xz, yz=yz, is2D=is2D)
+        if isinstance(box, Box):
+            new_box.periodic = box.periodic
+        return new_box
 
     @classmethod
     def from_matrix(cls, box_matrix, dimensions=None):
-- 
2.43.0


From d9ecbeb0bf93794eac06c2fb48b80a2f85b124fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 06/53] fix: nearest AABB queries return each point once and
 search the whole range

AABBQueryIterator started its first search without tracking duplicates even when
r_guess exceeded half the box, and stopped on the next radius rather than the one
it had searched, omitting neighbors between the last searched radius and r_max.
---
 freud/locality/AABBQuery.cc | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/freud/locality/AABBQuery.cc b/freud/locality/AABBQuery.cc
index 2d607e9..3d65c7e 100644
--- a/freud/locality/AABBQuery.cc
+++ b/freud/locality/AABBQuery.cc
@@ -174,13 +174,27 @@ NeighborBond AABBQueryIterator::next()
             // the _check_r_max. We also can't depend on the ball query for
             // r_min filtering because we're querying beyond the normally safe
             // bounds, so we have to do it in this class.
+            float const r_search = std::min(m_r_cur, m_r_max);
+            if (r_search > min_plane_distance / 2)
+            {
+                // If we have to go beyond the cutoff radius, we need to
+                // start tracking what particles are already in the set so
+                // that we can make sure that we find the closest image
+                // because we now run the risk of finding duplicates.
+                //
+                // We could make this marginally more efficient by checking
+                // whether we've exactly hit the limit, or if there's a
+                // rescaling that would let us try the exact limit once
+                // before going beyond the min plane distance.
+                m_search_extended = true;
+            }
             m_current_neighbors.clear();
             m_all_bonds_minimum_distance.clear();
             m_query_points_below_r_min.clear();
             std::shared_ptr<NeighborQueryPerPointIterator> const ball_it
                 = std::make_shared<AABBQueryBallIterator>(static_cast<const AABBQuery*>(m_neighbor_query),
                                                           m_query_point, m_query_point_idx,
-                                                          std::min(m_r_cur, m_r_max), 0, m_exclude_ii, false);
+                                                          r_search, 0, m_exclude_ii, false);
             while (!ball_it->end())
             {
                 NeighborBond nb = ball_it->next();
@@ -220,15 +234,13 @@ NeighborBond AABBQueryIterator::next()
 
             // Break if there are enough neighbors, or if we are querying beyond the limits of
             // the periodic box.
-            m_r_cur *= m_scale;
-
             if (m_current_neighbors.size() >= m_num_neighbors)
             {
                 std::sort(m_current_neighbors.begin(), m_current_neighbors.end());
                 break;
             }
 
-            if ((m_r_cur >= m_r_max) || (m_r_cur >= max_plane_distance)
+            if ((r_search >= m_r_max) || (r_search >= max_plane_distance)
                 || ((m_all_bonds_minimum_distance.size() - m_query_points_below_r_min.size())
                     >= m_num_neighbors))
             {
@@ -247,19 +259,7 @@ NeighborBond AABBQueryIterator::next()
                 break;
             }
 
-            if (m_r_cur > min_plane_distance / 2)
-            {
-                // If we have to go beyond the cutoff radius, we need to
-                // start tracking what particles are already in the set so
-                // that we can make sure that we find the closest image
-                // because we now run the risk of finding duplicates.
-                //
-                // We could make this marginally more efficient by checking
-                // whether we've exactly hit the limit, or if there's a
-                // rescaling that would let us try the exact limit once
-                // before going beyond the min plane distance.
-                m_search_extended = true;
-            }
+            m_r_cur *= m_scale;
         }
     }
 
-- 
2.43.0


From 962ab52e382c625d0ffa45cc2dd5a1ccd83d1fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 07/53] fix: LinkCell puts points whose fractional coordinate
 rounds below zero in the right cell

---
 freud/locality/LinkCell.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/freud/locality/LinkCell.cc b/freud/locality/LinkCell.cc
index 1d2cb9e..23379e1 100644
--- a/freud/locality/LinkCell.cc
+++ b/freud/locality/LinkCell.cc
@@ -356,13 +356,17 @@ unsigned int LinkCell::coordToIndex(unsigned int x, unsigned int y, unsigned int
 vec3<unsigned int> LinkCell::getCellCoord(const vec3<float>& p) const
 {
     vec3<float> const alpha = m_box.makeFractional(p);
+    // A fractional coordinate may round to slightly less than zero, so the
+    // periodic wrapping of cells must be done with signed integers.
+    auto const cell = [](float f, unsigned int dim) {
+        int const n = static_cast<int>(dim);
+        int const i = static_cast<int>(std::floor(f * static_cast<float>(dim))) % n;
+        return static_cast<unsigned int>(i < 0 ? i + n : i);
+    };
     vec3<unsigned int> c;
-    c.x = (unsigned int) std::floor(alpha.x * float(m_celldim.x));
-    c.x %= m_celldim.x;
-    c.y = (unsigned int) std::floor(alpha.y * float(m_celldim.y));
-    c.y %= m_celldim.y;
-    c.z = (unsigned int) std::floor(alpha.z * float(m_celldim.z));
-    c.z %= m_celldim.z;
+    c.x = cell(alpha.x, m_celldim.x);
+    c.y = cell(alpha.y, m_celldim.y);
+    c.z = cell(alpha.z, m_celldim.z);
     return c;
 }
 
-- 
2.43.0


From 211be2fa021fc73f302a211c1149ba79ec144b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 08/53] fix: LinkCell.cell_width is readable

---
 freud/locality/export-NeighborQuery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/locality/export-NeighborQuery.cc b/freud/locality/export-NeighborQuery.cc
index 974f4b1..254f3b3 100644
--- a/freud/locality/export-NeighborQuery.cc
+++ b/freud/locality/export-NeighborQuery.cc
@@ -84,7 +84,7 @@ void export_LinkCell(nb::module_& module)
 {
     nb::class_<LinkCell, NeighborQuery>(module, "LinkCell")
         .def("__init__", &wrap::LinkCellConstructor)
-        .def("GetCellWidth", &LinkCell::getCellWidth);
+        .def("getCellWidth", &LinkCell::getCellWidth);
 }
 
 void export_RawPoints(nb::module_& module)
-- 
2.43.0


From da3879fb4e0a7319eef998171231772ef51c267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:22 +0000
Subject: [PATCH 09/53] fix: CellQuery rejects non-periodic boxes like the
 other engines

It generated periodic images along non-periodic directions.
---
 freud/locality/CellQuery.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/freud/locality/CellQuery.cc b/freud/locality/CellQuery.cc
index 6cc263b..5419e55 100644
--- a/freud/locality/CellQuery.cc
+++ b/freud/locality/CellQuery.cc
@@ -17,6 +17,12 @@ namespace freud::locality {
 std::shared_ptr<NeighborQueryIterator>
 CellQuery::query(const vec3<float>* query_points, unsigned int n_query_points, QueryArgs query_args) const
 {
+    vec3<bool> const periodic = m_box.getPeriodic();
+    if (!(periodic.x && periodic.y && periodic.z))
+    {
+        throw std::domain_error("Pair queries in a non-periodic box are not implemented.");
+    }
+
     this->validateQueryArgs(query_args);
     // SAFETY: This lazy initialization can cause UB if `CellQuery.query` is
     // called in a parallel loop. This  never occurs as of writing this method,
-- 
2.43.0


From 0bd748a4ab14bddb0b852ff8d422375f0337f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 10/53] fix: NeighborList.filter rejects masks that do not
 match the bonds

A shorter mask was read out of bounds.
---
 freud/locality/export-NeighborList.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freud/locality/export-NeighborList.cc b/freud/locality/export-NeighborList.cc
index 1f1dced..4c33d13 100644
--- a/freud/locality/export-NeighborList.cc
+++ b/freud/locality/export-NeighborList.cc
@@ -6,6 +6,7 @@
 #include <nanobind/ndarray.h>
 #include <nanobind/operators.h>
 #include <nanobind/stl/shared_ptr.h> // NOLINT(misc-include-cleaner): used implicitly
+#include <stdexcept>
 
 #include "Box.h"
 #include "NeighborBond.h"
@@ -51,6 +52,10 @@ void ConstructAllPairs(NeighborList* nlist, const nb_array<const float, nb::shap
 unsigned int filter(const std::shared_ptr<NeighborList>& nlist,
                     const nb_array<const bool, nb::ndim<1>>& filter)
 {
+    if (filter.shape(0) != nlist->getNumBonds())
+    {
+        throw std::invalid_argument("NeighborList.filter requires one entry per bond.");
+    }
     const bool* filter_data = (const bool*) filter.data();
     return nlist->filter(filter_data);
 }
-- 
2.43.0


From 8795792cb85a9d87b4c021a876a594d094b6db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 11/53] fix: filtered neighbor lists keep the sizes of their
 input and may be empty

---
 freud/locality/FilterRAD.cc    |  3 ++-
 freud/locality/FilterSANN.cc   |  3 ++-
 freud/locality/NeighborList.cc | 38 ++++++++--------------------------
 freud/locality/NeighborList.h  |  2 +-
 4 files changed, 14 insertions(+), 32 deletions(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index 9eb2715..dd2534f 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -127,7 +127,8 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
     // sort final bonds array by distance
     tbb::parallel_sort(rad_bonds.begin(), rad_bonds.end(), compareNeighborDistance);
 
-    m_filtered_nlist = std::make_shared<NeighborList>(rad_bonds);
+    m_filtered_nlist = std::make_shared<NeighborList>(rad_bonds, sorted_nlist.getNumQueryPoints(),
+                                                      sorted_nlist.getNumPoints());
 };
 
 }; }; // namespace freud::locality
diff --git a/freud/locality/FilterSANN.cc b/freud/locality/FilterSANN.cc
index d66c31f..ea7b59c 100644
--- a/freud/locality/FilterSANN.cc
+++ b/freud/locality/FilterSANN.cc
@@ -99,7 +99,8 @@ void FilterSANN::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* q
     // sort final bonds array by distance
     tbb::parallel_sort(sann_bonds.begin(), sann_bonds.end(), compareNeighborDistance);
 
-    m_filtered_nlist = std::make_shared<NeighborList>(sann_bonds);
+    m_filtered_nlist = std::make_shared<NeighborList>(sann_bonds, sorted_nlist.getNumQueryPoints(),
+                                                      sorted_nlist.getNumPoints());
 };
 
 }; }; // namespace freud::locality
diff --git a/freud/locality/NeighborList.cc b/freud/locality/NeighborList.cc
index 96baa23..456083c 100644
--- a/freud/locality/NeighborList.cc
+++ b/freud/locality/NeighborList.cc
@@ -127,34 +127,21 @@ NeighborList::NeighborList(const vec3<float>* points, const vec3<float>* query_p
     });
 }
 
-NeighborList::NeighborList(std::vector<NeighborBond> bonds)
-    : m_distances(std::make_shared<util::ManagedArray<float>>(bonds.size())),
-      m_vectors(std::make_shared<util::ManagedArray<vec3<float>>>(bonds.size())),
+NeighborList::NeighborList(std::vector<NeighborBond> bonds, unsigned int num_query_points,
+                           unsigned int num_points)
+    : m_num_query_points(num_query_points), m_num_points(num_points), m_segments_counts_updated(false),
+      m_neighbors(std::make_shared<util::ManagedArray<unsigned int>>(std::vector<size_t> {bonds.size(), 2})),
+      m_distances(std::make_shared<util::ManagedArray<float>>(bonds.size())),
       m_weights(std::make_shared<util::ManagedArray<float>>(bonds.size())),
-      m_neighbors(std::make_shared<util::ManagedArray<unsigned int>>(std::vector<size_t> {bonds.size(), 2}))
+      m_vectors(std::make_shared<util::ManagedArray<vec3<float>>>(bonds.size())),
+      m_segments(std::make_shared<util::ManagedArray<unsigned int>>(num_query_points)),
+      m_counts(std::make_shared<util::ManagedArray<unsigned int>>(num_query_points))
 {
-    // keep track of maximum indices
-    using MaxIndex = tbb::enumerable_thread_specific<unsigned int>;
-    MaxIndex max_idx_query = 0;
-    MaxIndex max_idx_point = 0;
-
     // fill arrays in parallel
     util::forLoopWrapper(0, bonds.size(), [&](size_t begin, size_t end) {
-        MaxIndex::reference max_point_idx(max_idx_point.local());
-        MaxIndex::reference max_query_idx(max_idx_query.local());
         for (auto i = begin; i < end; ++i)
         {
-            auto bond = bonds[i];
-
-            // update max bond indices
-            if (max_point_idx < bond.getPointIdx())
-            {
-                max_point_idx = bond.getPointIdx();
-            }
-            if (max_query_idx < bond.getQueryPointIdx())
-            {
-                max_query_idx = bond.getQueryPointIdx();
-            }
+            const auto& bond = bonds[i];
 
             // fill in array data
             (*m_distances)(i) = bond.getDistance();
@@ -164,13 +151,6 @@ NeighborList::NeighborList(std::vector<NeighborBond> bonds)
             (*m_vectors)(i) = bond.getVector();
         }
     });
-
-    // set num points, query points as max of thread-local maxes
-    m_num_points = (*std::max_element(max_idx_point.begin(), max_idx_point.end())) + 1;
-    m_num_query_points = (*std::max_element(max_idx_query.begin(), max_idx_query.end())) + 1;
-    m_segments = std::make_shared<util::ManagedArray<unsigned int>>(m_num_query_points);
-    m_counts = std::make_shared<util::ManagedArray<unsigned int>>(m_num_query_points);
-    m_segments_counts_updated = false;
 }
 
 unsigned int NeighborList::getNumBonds() const
diff --git a/freud/locality/NeighborList.h b/freud/locality/NeighborList.h
index b73b844..95c5a70 100644
--- a/freud/locality/NeighborList.h
+++ b/freud/locality/NeighborList.h
@@ -44,7 +44,7 @@ public:
                  const bool exclude_ii, const unsigned int num_points, const unsigned int num_query_points);
 
     //! Construct from vector of NeighborBonds
-    explicit NeighborList(std::vector<NeighborBond> bonds);
+    NeighborList(std::vector<NeighborBond> bonds, unsigned int num_query_points, unsigned int num_points);
 
     //! Return the number of bonds stored in this NeighborList
     unsigned int getNumBonds() const;
-- 
2.43.0


From 7677817e04559e14e2f6dbcfdd2b9aa5589576a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 12/53] fix: FilterRAD keeps the vectors and weights of the
 bonds

---
 freud/locality/FilterRAD.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index dd2534f..756c702 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -43,10 +43,9 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
     std::vector<unsigned int> unfilled_qps(sorted_nlist.getNumQueryPoints(),
                                            std::numeric_limits<unsigned int>::max());
 
-    const auto& points = nq->getPoints();
-    const auto& box = nq->getBox();
     const auto& sorted_neighbors = *sorted_nlist.getNeighbors();
     const auto& sorted_dist = *sorted_nlist.getDistances();
+    const auto& sorted_vecs = *sorted_nlist.getVectors();
     const auto& sorted_weights = *sorted_nlist.getWeights();
     const auto& sorted_counts = *sorted_nlist.getCounts();
 
@@ -67,14 +66,14 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
             for (unsigned int j = 0; j < num_unfiltered_neighbors; j++)
             {
                 const auto first_neighbor_idx = sorted_neighbors(first_idx + j, 1);
-                const auto v1 = box.wrap(query_points[i] - points[first_neighbor_idx]);
+                const auto v1 = sorted_vecs(first_idx + j);
                 good_neighbor = true;
 
                 // loop over particles which may be blocking the neighbor j
                 for (unsigned int k = 0; k < j; k++)
                 {
                     const auto second_neighbor_idx = sorted_neighbors(first_idx + k, 1);
-                    const auto v2 = box.wrap(query_points[i] - points[second_neighbor_idx]);
+                    const auto v2 = sorted_vecs(first_idx + k);
                     const float first_neighbor_radius = points_radii[first_neighbor_idx];
                     const float second_neighbor_radius = points_radii[second_neighbor_idx];
                     const float first_neighbor_radius_sq = first_neighbor_radius * first_neighbor_radius;
@@ -93,7 +92,8 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
                 // if no k blocks j, add a bond from i to j
                 if (good_neighbor)
                 {
-                    local_bonds.emplace_back(i, first_neighbor_idx, sorted_dist(first_idx + j), 1, v1);
+                    local_bonds.emplace_back(i, first_neighbor_idx, sorted_dist(first_idx + j),
+                                             sorted_weights(first_idx + j), v1);
                 }
                 else if (m_terminate_after_blocked)
                 {
-- 
2.43.0


From 66dd408aea5d324b5de5b7180e8a230b0997ca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 13/53] fix: even replica counts of tilted unit cells shift
 along the lattice vectors

---
 freud/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freud/data.py b/freud/data.py
index 998a000..586e487 100644
--- a/freud/data.py
+++ b/freud/data.py
@@ -136,9 +136,9 @@ class UnitCell:
             box = self.box * scale
             positions = self.box.make_absolute(self.basis_positions)
 
-        # Even numbers of repeats shift the box by L/2
+        # Even numbers of repeats shift the box by half a lattice vector
         shift_vec = (np.array([nx, ny, nz]) + 1) % 2
-        positions += shift_vec * self.box.make_absolute([1, 1, 1])
+        positions += self.box.make_absolute((1 + shift_vec) / 2)
         positions *= scale
         positions = box.wrap(positions)
 
-- 
2.43.0


From 883d4fa502cff9f2f24abb889c4e28edd83d3bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 14/53] fix: ClusterProperties centres of mass use the masses
 of the cluster's own points

---
 freud/cluster.py                   |  2 +-
 freud/cluster/ClusterProperties.cc | 14 ++++----------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/freud/cluster.py b/freud/cluster.py
index aedb75c..ec9907c 100644
--- a/freud/cluster.py
+++ b/freud/cluster.py
@@ -180,7 +180,7 @@ class ClusterProperties(_Compute):
             cluster_idx, shape=(nq.points.shape[0],), dtype=np.uint32
         )
         if masses is not None:
-            masses = freud.util._convert_array(masses, shape=(len(masses),))
+            masses = freud.util._convert_array(masses, shape=(nq.points.shape[0],))
         self._cpp_obj.compute(nq._cpp_obj, cluster_idx, masses)
         return self
 
diff --git a/freud/cluster/ClusterProperties.cc b/freud/cluster/ClusterProperties.cc
index 0274e3d..eb2253e 100644
--- a/freud/cluster/ClusterProperties.cc
+++ b/freud/cluster/ClusterProperties.cc
@@ -46,6 +46,7 @@ void ClusterProperties::compute(const std::shared_ptr<locality::NeighborQuery>&
 
     // Create a vector to store cluster points, used to compute center of mass
     std::vector<std::vector<vec3<float>>> cluster_points(num_clusters, std::vector<vec3<float>>());
+    std::vector<std::vector<float>> cluster_point_masses(num_clusters, std::vector<float>());
 
     // Start by determining the center of mass of each cluster. Since we are
     // given an array of points, the easiest way to do this is to loop over
@@ -58,23 +59,16 @@ void ClusterProperties::compute(const std::shared_ptr<locality::NeighborQuery>&
         (*m_cluster_sizes)[c]++;
         float const mass = (masses != nullptr) ? masses[i] : float(1.0);
         (*m_cluster_masses)[c] += mass;
+        cluster_point_masses[c].push_back(mass);
     }
 
     // Now that we have located all of the cluster vectors, compute the centers
-    const float* cluster_point_masses = masses;
     for (unsigned int c = 0; c < num_clusters; c++)
     {
         (*m_cluster_centers)[c] = nq->getBox().centerOfMass(cluster_points[c].data(), (*m_cluster_sizes)[c]);
         (*m_cluster_centers_of_mass)[c] = nq->getBox().centerOfMass(
-            cluster_points[c].data(), (*m_cluster_sizes)[c], cluster_point_masses);
-        if (masses == nullptr)
-        {
-            cluster_point_masses = nullptr;
-        }
-        else
-        {
-            cluster_point_masses = cluster_point_masses + (*m_cluster_sizes)[c];
-        }
+            cluster_points[c].data(), (*m_cluster_sizes)[c],
+            (masses != nullptr) ? cluster_point_masses[c].data() : nullptr);
     }
 
     // Now that we have determined the centers of mass for each cluster, tally
-- 
2.43.0


From 76cdb9f017ed408e02e3caff2af95a8241860207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 15/53] fix: CorrelationFunction.bins and the bounds of
 CorrelationFunction and BondOrder raised AttributeError

---
 freud/density.py                            | 2 +-
 freud/density/export-CorrelationFunction.cc | 2 ++
 freud/environment/export-BondOrder.cc       | 2 ++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/freud/density.py b/freud/density.py
index c47ad95..de6e865 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -145,7 +145,7 @@ class CorrelationFunction(_SpatialHistogram1D):
     @property
     def bins(self):
         """int: Number of bins used in the calculation."""
-        return self._cpp_obj.getNBins()
+        return self._bins
 
     def __repr__(self):
         return (
diff --git a/freud/density/export-CorrelationFunction.cc b/freud/density/export-CorrelationFunction.cc
index a868bd3..14afa76 100644
--- a/freud/density/export-CorrelationFunction.cc
+++ b/freud/density/export-CorrelationFunction.cc
@@ -5,6 +5,7 @@
 #include <memory>
 #include <nanobind/nanobind.h>
 #include <nanobind/ndarray.h>
+#include <nanobind/stl/pair.h>       // NOLINT(misc-include-cleaner): used implicitly
 #include <nanobind/stl/shared_ptr.h> // NOLINT(misc-include-cleaner): used implicitly
 #include <nanobind/stl/vector.h>     // NOLINT(misc-include-cleaner): used implicitly
 
@@ -54,6 +55,7 @@ void export_CorrelationFunction(nanobind::module_& m)
         .def("getAxisSizes", &CorrelationFunction::getAxisSizes)
         .def("getBinCounts", &CorrelationFunction::getBinCounts)
         .def("getBinEdges", &CorrelationFunction::getBinEdges)
+        .def("getBounds", &CorrelationFunction::getBounds)
         .def("getBox", &CorrelationFunction::getBox)
         .def("getCorrelation", &CorrelationFunction::getCorrelation);
 }
diff --git a/freud/environment/export-BondOrder.cc b/freud/environment/export-BondOrder.cc
index 8a79b10..ba75f10 100644
--- a/freud/environment/export-BondOrder.cc
+++ b/freud/environment/export-BondOrder.cc
@@ -4,6 +4,7 @@
 #include <memory>
 #include <nanobind/nanobind.h>
 #include <nanobind/ndarray.h>
+#include <nanobind/stl/pair.h>       // NOLINT(misc-include-cleaner): used implicitly
 #include <nanobind/stl/shared_ptr.h> // NOLINT(misc-include-cleaner): used implicitly
 #include <nanobind/stl/vector.h>     // NOLINT(misc-include-cleaner): used implicitly
 
@@ -65,6 +66,7 @@ void export_BondOrder(nb::module_& module)
         .def("getBinCounts", &BondOrder::getBinCounts)
         .def("getBinCenters", &BondOrder::getBinCenters)
         .def("getBinEdges", &BondOrder::getBinEdges)
+        .def("getBounds", &BondOrder::getBounds)
         .def("getBox", &BondOrder::getBox)
         .def("getAxisSizes", &BondOrder::getAxisSizes)
         .def("getMode", &BondOrder::getMode)
-- 
2.43.0


From 5f556f5db827507df9ccd9f4bb148c2a99dc87b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 16/53] fix: changing RDF.mode after compute renormalizes the
 results

---
 freud/density/RDF.h         | 7 +++++++
 freud/density/export-RDF.cc | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/freud/density/RDF.h b/freud/density/RDF.h
index 27a214d..24c1040 100644
--- a/freud/density/RDF.h
+++ b/freud/density/RDF.h
@@ -35,6 +35,13 @@ public:
     //! Destructor
     ~RDF() override = default;
 
+    //! Set the normalization mode; results are normalized again on the next read.
+    void setMode(NormalizationMode new_mode)
+    {
+        mode = new_mode;
+        m_reduce = true;
+    }
+
     //! Compute the RDF
     /*! Accumulate the given points to the histogram. Accumulation is performed
      * in parallel on thread-local copies of the data, which are reduced into
diff --git a/freud/density/export-RDF.cc b/freud/density/export-RDF.cc
index 1e9b090..41845a4 100644
--- a/freud/density/export-RDF.cc
+++ b/freud/density/export-RDF.cc
@@ -43,7 +43,7 @@ void export_RDF(nanobind::module_& m)
              nanobind::arg("nlist").none(), nanobind::arg("qargs"))
         .def("getRDF", &RDF::getRDF)
         .def("getNr", &RDF::getNr)
-        .def_rw("mode", &RDF::mode);
+        .def_prop_rw("mode", [](const RDF& self) { return self.mode; }, &RDF::setMode);
 }
 
 } // namespace detail
-- 
2.43.0


From 69e0fa924658a69f529cfda9df1f749b14434710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 17/53] fix: BondOrder counts bonds along -z

---
 freud/environment/BondOrder.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/freud/environment/BondOrder.cc b/freud/environment/BondOrder.cc
index f65e43c..8897261 100644
--- a/freud/environment/BondOrder.cc
+++ b/freud/environment/BondOrder.cc
@@ -1,6 +1,7 @@
 // Copyright (c) 2010-2026 The Regents of the University of Michigan
 // This file is from the freud project, released under the BSD 3-Clause License.
 
+#include <algorithm>
 #include <cmath>
 #include <stdexcept>
 #ifdef __SSE2__
@@ -143,7 +144,9 @@ void BondOrder::accumulate(const std::shared_ptr<locality::NeighborQuery>& neigh
                           theta = util::modulusPositive(theta, constants::TWO_PI);
 
                           // NOTE that the below has replaced the commented out expression for phi.
-                          const float phi = std::acos(v.z / std::sqrt(dot(v, v))); // 0..Pi
+                          // 0..Pi; a bond along -z belongs to the last bin, whose upper edge is excluded
+                          const float phi = std::min(std::acos(v.z / std::sqrt(dot(v, v))),
+                                                     std::nextafter(static_cast<float>(M_PI), float(0.0)));
 
                           m_local_histograms(theta, phi);
                       });
-- 
2.43.0


From 462576d09e2827e970665e6586af0a5aa60000a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 18/53] fix: PMFTs accept quaternions for any rotation about z

---
 freud/pmft.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/freud/pmft.py b/freud/pmft.py
index 420c751..e5eb64a 100644
--- a/freud/pmft.py
+++ b/freud/pmft.py
@@ -41,7 +41,6 @@ refer to the supplementary information of :cite:`vanAnders:2014aa`.
 from importlib.util import find_spec
 
 import numpy as np
-import rowan
 
 import freud._pmft
 import freud.locality
@@ -71,13 +70,13 @@ def _quat_to_z_angle(orientations, num_points):
     ) or (len(orientations.shape) == 2 and orientations.shape[1] == 4)
 
     if is_quat:
-        axes, orientations = rowan.to_axis_angle(orientations)
-        if not (np.allclose(orientations, 0) or np.allclose(axes, [0, 0, 1])):
+        if not np.allclose(orientations[..., 1:3], 0, atol=1e-6):
             msg = (
                 "Orientations provided as quaternions "
                 "must represent rotations about the z-axis."
             )
             raise ValueError(msg)
+        orientations = 2 * np.arctan2(orientations[..., 3], orientations[..., 0])
     return orientations
 
 
-- 
2.43.0


From c83219baa1e3f51a2f0c24099c7c2f22da445a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:43 +0000
Subject: [PATCH 19/53] fix: GaussianDensity and SphereVoxelization visit every
 voxel within r_max exactly once

The window of voxels around a point was truncated to int(r_max / grid), which
misses voxels whose centers are within r_max, visited voxels several times when
it was wider than the grid, and indexed wrongly for points outside the box.
---
 freud/density/GaussianDensity.cc    | 17 +++++++++--------
 freud/density/SphereVoxelization.cc | 17 +++++++++--------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/freud/density/GaussianDensity.cc b/freud/density/GaussianDensity.cc
index d28b667..ce5d8d4 100644
--- a/freud/density/GaussianDensity.cc
+++ b/freud/density/GaussianDensity.cc
@@ -1,6 +1,7 @@
 // Copyright (c) 2010-2026 The Regents of the University of Michigan
 // This file is from the freud project, released under the BSD 3-Clause License.
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <memory>
@@ -81,10 +82,10 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
     const float grid_size_y = Ly / static_cast<float>(m_width.y);
     const float grid_size_z = m_box.is2D() ? 0 : Lz / static_cast<float>(m_width.z);
 
-    // Find the number of bins within r_max
-    const int bin_cut_x = int(m_r_max / grid_size_x);
-    const int bin_cut_y = int(m_r_max / grid_size_y);
-    const int bin_cut_z = m_box.is2D() ? 0 : int(m_r_max / grid_size_z);
+    // Find the number of bins whose centers can be within r_max, visiting no bin twice
+    const int bin_cut_x = int(std::min(m_r_max / grid_size_x + 0.5F, float(m_width.x)));
+    const int bin_cut_y = int(std::min(m_r_max / grid_size_y + 0.5F, float(m_width.y)));
+    const int bin_cut_z = m_box.is2D() ? 0 : int(std::min(m_r_max / grid_size_z + 0.5F, float(m_width.z)));
     const float r_max_sq = m_r_max * m_r_max;
     const float sigmasq = m_sigma * m_sigma;
     const float normalization_base = float(1.0) / std::sqrt(constants::TWO_PI * sigmasq);
@@ -95,7 +96,7 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
         // for each reference point
         for (size_t idx = begin; idx < end; ++idx)
         {
-            const vec3<float> point = (*nq)[idx];
+            const vec3<float> point = m_box.wrap((*nq)[idx]);
             const float value = (values != nullptr) ? values[idx] : 1.0F;
 
             // Find which bin the particle is in
@@ -113,7 +114,7 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
             // Only evaluate over bins that are within the cutoff
             for (int k = bin_z - bin_cut_z; k <= bin_z + bin_cut_z; k++)
             {
-                if (!periodic.z && (k < 0 || k >= int(m_width.z)))
+                if (periodic.z ? k >= bin_z - bin_cut_z + int(m_width.z) : (k < 0 || k >= int(m_width.z)))
                 {
                     continue;
                 }
@@ -122,7 +123,7 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
 
                 for (int j = bin_y - bin_cut_y; j <= bin_y + bin_cut_y; j++)
                 {
-                    if (!periodic.y && (j < 0 || j >= int(m_width.y)))
+                    if (periodic.y ? j >= bin_y - bin_cut_y + int(m_width.y) : (j < 0 || j >= int(m_width.y)))
                     {
                         continue;
                     }
@@ -131,7 +132,7 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
 
                     for (int i = bin_x - bin_cut_x; i <= bin_x + bin_cut_x; i++)
                     {
-                        if (!periodic.x && (i < 0 || i >= int(m_width.x)))
+                        if (periodic.x ? i >= bin_x - bin_cut_x + int(m_width.x) : (i < 0 || i >= int(m_width.x)))
                         {
                             continue;
                         }
diff --git a/freud/density/SphereVoxelization.cc b/freud/density/SphereVoxelization.cc
index a50cdef..7b197ed 100644
--- a/freud/density/SphereVoxelization.cc
+++ b/freud/density/SphereVoxelization.cc
@@ -1,6 +1,7 @@
 // Copyright (c) 2010-2026 The Regents of the University of Michigan
 // This file is from the freud project, released under the BSD 3-Clause License.
 
+#include <algorithm>
 #include <cstddef>
 #include <memory>
 #include <stdexcept>
@@ -77,17 +78,17 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
     const float grid_size_y = Ly / static_cast<float>(m_width.y);
     const float grid_size_z = m_box.is2D() ? 0 : Lz / static_cast<float>(m_width.z);
 
-    // Find the number of bins within r_max
-    const int bin_cut_x = int(m_r_max / grid_size_x);
-    const int bin_cut_y = int(m_r_max / grid_size_y);
-    const int bin_cut_z = m_box.is2D() ? 0 : int(m_r_max / grid_size_z);
+    // Find the number of bins whose centers can be within r_max, visiting no bin twice
+    const int bin_cut_x = int(std::min(m_r_max / grid_size_x + 0.5F, float(m_width.x)));
+    const int bin_cut_y = int(std::min(m_r_max / grid_size_y + 0.5F, float(m_width.y)));
+    const int bin_cut_z = m_box.is2D() ? 0 : int(std::min(m_r_max / grid_size_z + 0.5F, float(m_width.z)));
     const float r_max_sq = m_r_max * m_r_max;
 
     util::forLoopWrapper(0, n_points, [&](size_t begin, size_t end) {
         // for each reference point
         for (size_t idx = begin; idx < end; ++idx)
         {
-            const vec3<float> point = (*neighbor_query)[idx];
+            const vec3<float> point = m_box.wrap((*neighbor_query)[idx]);
             // Find which bin the particle is in
             const int bin_x = int((point.x + Lx / float(2.0)) / grid_size_x);
             const int bin_y = int((point.y + Ly / float(2.0)) / grid_size_y);
@@ -98,7 +99,7 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
             // that are outside the box in aperiodic directions.
             for (int k = bin_z - bin_cut_z; k <= bin_z + bin_cut_z; k++)
             {
-                if (!periodic.z && (k < 0 || k >= int(m_width.z)))
+                if (periodic.z ? k >= bin_z - bin_cut_z + int(m_width.z) : (k < 0 || k >= int(m_width.z)))
                 {
                     continue;
                 }
@@ -107,7 +108,7 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
 
                 for (int j = bin_y - bin_cut_y; j <= bin_y + bin_cut_y; j++)
                 {
-                    if (!periodic.y && (j < 0 || j >= int(m_width.y)))
+                    if (periodic.y ? j >= bin_y - bin_cut_y + int(m_width.y) : (j < 0 || j >= int(m_width.y)))
                     {
                         continue;
                     }
@@ -116,7 +117,7 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
 
                     for (int i = bin_x - bin_cut_x; i <= bin_x + bin_cut_x; i++)
                     {
-                        if (!periodic.x && (i < 0 || i >= int(m_width.x)))
+                        if (periodic.x ? i >= bin_x - bin_cut_x + int(m_width.x) : (i < 0 || i >= int(m_width.x)))
                         {
                             continue;
                         }
-- 
2.43.0


From a02a75396dca7aa8cb7604e832492829dde0bfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:45 +0000
Subject: [PATCH 20/53] fix: LocalDensity ignores neighbors that lie entirely
 outside r_max

Bonds beyond r_max + diameter/2 (from user supplied neighbors) contributed
negative counts, infinite ones for diameter 0.
---
 freud/density/LocalDensity.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/density/LocalDensity.cc b/freud/density/LocalDensity.cc
index 8a09dce..af82384 100644
--- a/freud/density/LocalDensity.cc
+++ b/freud/density/LocalDensity.cc
@@ -60,7 +60,7 @@ void LocalDensity::compute(const std::shared_ptr<locality::NeighborQuery>& neigh
                 {
                     num_neighbors += float(1.0);
                 }
-                else
+                else if (nb.getDistance() < (m_r_max + m_diameter / float(2.0)))
                 {
                     // partially count particles that intersect the r_max sphere
                     // this is not particularly accurate for a single particle, but works well on average for
-- 
2.43.0


From aada337d8b2c135724ac102c476da19b60ddbc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:33 +0000
Subject: [PATCH 21/53] fix: DiffractionPattern.k_vectors of a rotated view are
 in the system's frame

The points are rotated by view_orientation, so a wavevector of the view plane
is the inverse rotation of its in-plane components.
---
 freud/diffraction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index 609818b..3bb4190 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -827,7 +827,9 @@ class DiffractionPattern(_Compute):
         k-vectors."""
         if not self._k_vectors_cached:
             self._k_vectors = (
-                rowan.rotate(self._view_orientation, self._k_vectors_orig)
+                rowan.rotate(
+                    rowan.conjugate(self._view_orientation), self._k_vectors_orig
+                )
                 * self._k_scale_factor
             )
             self._k_vectors_cached = True
-- 
2.43.0


From e750a48fd19cc96c8ee2156fb9a7d4f90f21934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:19 +0000
Subject: [PATCH 22/53] fix: seed the Cubatic annealing per replicate, not per
 thread chunk

---
 freud/order/Cubatic.cc | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/freud/order/Cubatic.cc b/freud/order/Cubatic.cc
index 854de27..0f74836 100644
--- a/freud/order/Cubatic.cc
+++ b/freud/order/Cubatic.cc
@@ -260,20 +260,19 @@ void Cubatic::compute(const quat<float>* orientations, unsigned int num_orientat
     util::ManagedArray<quat<float>> p_cubatic_orientation(m_n_replicates);
 
     util::forLoopWrapper(0, m_n_replicates, [&](size_t begin, size_t end) {
-        // create thread-specific rng
-        const auto thread_start = static_cast<unsigned int>(begin);
-
-        std::vector<unsigned int> seed_seq(3);
-        seed_seq[0] = m_seed;
-        seed_seq[1] = thread_start;
-        seed_seq[2] = 0xffaabb;
-        std::seed_seq seed(seed_seq.begin(), seed_seq.end());
-        std::mt19937 rng(seed);
-        std::uniform_real_distribution<float> base_dist(0, 1);
-        auto dist = [&]() { return base_dist(rng); };
-
         for (size_t i = begin; i < end; i++)
         {
+            // create a replicate-specific rng, so that results do not depend on how the
+            // replicates are divided among threads
+            std::vector<unsigned int> seed_seq(3);
+            seed_seq[0] = m_seed;
+            seed_seq[1] = static_cast<unsigned int>(i);
+            seed_seq[2] = 0xffaabb;
+            std::seed_seq seed(seed_seq.begin(), seed_seq.end());
+            std::mt19937 rng(seed);
+            std::uniform_real_distribution<float> base_dist(0, 1);
+            auto dist = [&]() { return base_dist(rng); };
+
             // need to generate random orientation
             quat<float> cubatic_orientation = calcRandomQuaternion(dist);
             quat<float> new_orientation = cubatic_orientation;
-- 
2.43.0


From 7c45b678c833fbe2231b1b26f4e390719fb64f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:03 +0000
Subject: [PATCH 23/53] fix: pair each orientation with its own point in
 AngularSeparationNeighbor

---
 freud/environment.py                   | 9 ++++-----
 freud/environment/AngularSeparation.cc | 6 +++---
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/freud/environment.py b/freud/environment.py
index edb2681..92ec698 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -93,7 +93,7 @@ class AngularSeparationNeighbor(_PairCompute):
                 (Default value: None).
         """  # noqa: E501
         equiv_orientations = np.asarray(equiv_orientations)
-        nq, nlist, qargs, query_points, _num_query_points = self._preprocess_arguments(
+        nq, nlist, qargs, query_points, num_query_points = self._preprocess_arguments(
             system, query_points, neighbors
         )
 
@@ -102,10 +102,9 @@ class AngularSeparationNeighbor(_PairCompute):
         )
         if query_orientations is None:
             query_orientations = orientations
-        else:
-            query_orientations = freud.util._convert_array(
-                query_orientations, shape=(query_points.shape[0], 4)
-            )
+        query_orientations = freud.util._convert_array(
+            query_orientations, shape=(num_query_points, 4)
+        )
 
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
diff --git a/freud/environment/AngularSeparation.cc b/freud/environment/AngularSeparation.cc
index dbe4fb1..ecdc1fe 100644
--- a/freud/environment/AngularSeparation.cc
+++ b/freud/environment/AngularSeparation.cc
@@ -73,16 +73,16 @@ void AngularSeparationNeighbor::compute(const std::shared_ptr<locality::Neighbor
     const size_t tot_num_neigh = m_nlist->getNumBonds();
     m_angles = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {tot_num_neigh});
 
-    util::forLoopWrapper(0, nq->getNPoints(), [&](size_t begin, size_t end) {
+    util::forLoopWrapper(0, n_query_points, [&](size_t begin, size_t end) {
         size_t bond(m_nlist->find_first_index(begin));
         for (size_t i = begin; i < end; ++i)
         {
-            const quat<float> q = orientations[i];
+            const quat<float> query_q = query_orientations[i];
 
             for (; bond < tot_num_neigh && (*m_nlist->getNeighbors())(bond, 0) == i; ++bond)
             {
                 const size_t j((*m_nlist->getNeighbors())(bond, 1));
-                const quat<float> query_q = query_orientations[j];
+                const quat<float> q = orientations[j];
 
                 const float theta
                     = computeMinSeparationAngle(q, query_q, equiv_orientations, n_equiv_orientations);
-- 
2.43.0


From c22fde1ac893c828627048a96c70963cefbcb3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:33 +0000
Subject: [PATCH 24/53] fix: RotationalAutocorrelation factorials overflowed
 from l=10; accept any float arrays

---
 freud/order.py                           |  5 +++
 freud/order/RotationalAutocorrelation.cc | 47 ++++++++++++------------
 freud/order/RotationalAutocorrelation.h  |  8 ++--
 3 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/freud/order.py b/freud/order.py
index b6e014c..957b3d5 100644
--- a/freud/order.py
+++ b/freud/order.py
@@ -861,6 +861,11 @@ class RotationalAutocorrelation(_Compute):
         assert len(ref_orientations) == len(orientations), (
             "orientations and ref_orientations must have the same shape."
         )
+        ref_orientations = freud.util._convert_array(ref_orientations, shape=(None, 4))
+        orientations = freud.util._convert_array(
+            orientations, shape=(ref_orientations.shape[0], 4)
+        )
+
         self._cpp_obj.compute(ref_orientations, orientations)
         return self
 
diff --git a/freud/order/RotationalAutocorrelation.cc b/freud/order/RotationalAutocorrelation.cc
index 82cc4d8..e917048 100644
--- a/freud/order/RotationalAutocorrelation.cc
+++ b/freud/order/RotationalAutocorrelation.cc
@@ -23,13 +23,13 @@ namespace freud { namespace order {
 // serves as a micro-optimization since std::pow can be slow. We can take the
 // exponent to be an unsigned int since all the sums in the hyperspherical
 // harmonic below guarantee this.
-inline std::complex<float> cpow(std::complex<float> base, unsigned int p)
+inline std::complex<double> cpow(std::complex<double> base, unsigned int p)
 {
     if (p == 0)
     {
         return {1, 0};
     }
-    std::complex<float> val(base);
+    std::complex<double> val(base);
     for (unsigned int i = 1; i < p; i++)
     {
         val *= base;
@@ -37,21 +37,20 @@ inline std::complex<float> cpow(std::complex<float> base, unsigned int p)
     return val;
 }
 
-inline std::complex<float> RotationalAutocorrelation::hypersphere_harmonic(const std::complex<float> xi,
-                                                                           std::complex<float> zeta,
-                                                                           const unsigned int m1,
-                                                                           const unsigned int m2)
+inline std::complex<double> RotationalAutocorrelation::hypersphere_harmonic(const std::complex<double> xi,
+                                                                            std::complex<double> zeta,
+                                                                            const unsigned int m1,
+                                                                            const unsigned int m2)
 {
-    const std::complex<float> xi_conj = std::conj(xi);
-    const std::complex<float> zeta_conj = std::conj(zeta);
+    const std::complex<double> xi_conj = std::conj(xi);
+    const std::complex<double> zeta_conj = std::conj(zeta);
 
     // Doing a summation over non-negative exponents, which requires the additional inner conditional.
-    std::complex<float> sum_tracker(0, 0);
+    std::complex<double> sum_tracker(0, 0);
     for (unsigned int k = (m1 + m2 < m_l ? 0 : m1 + m2 - m_l); k <= std::min(m1, m2); k++)
     {
-        const float fact_product = static_cast<float>((*m_factorials)[k])
-            * static_cast<float>((*m_factorials)[m_l + k - m1 - m2])
-            * static_cast<float>((*m_factorials)[m1 - k]) * static_cast<float>((*m_factorials)[m2 - k]);
+        const double fact_product = (*m_factorials)[k] * (*m_factorials)[m_l + k - m1 - m2]
+            * (*m_factorials)[m1 - k] * (*m_factorials)[m2 - k];
         sum_tracker += cpow(xi_conj, k) * cpow(zeta, m2 - k) * cpow(zeta_conj, m1 - k)
             * cpow(-xi, m_l + k - m1 - m2) / fact_product;
     }
@@ -67,18 +66,17 @@ void RotationalAutocorrelation::compute(const quat<float>* ref_orientations, con
     // default quaternion constructor gives a unit quaternion. We will assume
     // the same iteration order here as in the loop below to save ourselves
     // from having to use a more expensive process (i.e. a map).
-    const std::complex<float> xi = std::complex<float>(0, 0);
-    const std::complex<float> zeta = std::complex<float>(0, 1);
-    std::vector<std::complex<float>> unit_harmonics;
-    std::vector<std::vector<float>> prefactors(m_l + 1, std::vector<float>(m_l + 1, float(0)));
+    const std::complex<double> xi = std::complex<double>(0, 0);
+    const std::complex<double> zeta = std::complex<double>(0, 1);
+    std::vector<std::complex<double>> unit_harmonics;
+    std::vector<std::vector<double>> prefactors(m_l + 1, std::vector<double>(m_l + 1, 0));
     for (unsigned int a = 0; a <= m_l; a++)
     {
         for (unsigned int b = 0; b <= m_l; b++)
         {
             unit_harmonics.push_back(std::conj(hypersphere_harmonic(xi, zeta, a, b)));
-            prefactors[a][b] = static_cast<float>((*m_factorials)[a] * (*m_factorials)[m_l - a]
-                                                  * (*m_factorials)[b] * (*m_factorials)[m_l - b])
-                / (static_cast<float>(m_l + 1));
+            prefactors[a][b] = (*m_factorials)[a] * (*m_factorials)[m_l - a] * (*m_factorials)[b]
+                * (*m_factorials)[m_l - b] / (m_l + 1);
         }
     }
 
@@ -88,22 +86,23 @@ void RotationalAutocorrelation::compute(const quat<float>* ref_orientations, con
         {
             // Transform the orientation quaternions into Xi/Zeta coordinates;
             const quat<float> qq_1 = conj(ref_orientations[i]) * orientations[i];
-            const std::complex<float> xi = std::complex<float>(qq_1.v.x, qq_1.v.y);
-            const std::complex<float> zeta = std::complex<float>(qq_1.v.z, qq_1.s);
+            const std::complex<double> xi = std::complex<double>(qq_1.v.x, qq_1.v.y);
+            const std::complex<double> zeta = std::complex<double>(qq_1.v.z, qq_1.s);
 
             // Loop through the valid quantum numbers.
-            (*m_RA_array)[i] = std::complex<float>(0, 0);
+            std::complex<double> ra_value(0, 0);
             unsigned int uh_index = 0;
             for (unsigned int a = 0; a <= m_l; a++)
             {
                 for (unsigned int b = 0; b <= m_l; b++)
                 {
-                    const std::complex<float> combined_value
+                    const std::complex<double> combined_value
                         = unit_harmonics[uh_index] * hypersphere_harmonic(xi, zeta, a, b);
-                    (*m_RA_array)[i] += prefactors[a][b] * combined_value;
+                    ra_value += prefactors[a][b] * combined_value;
                     uh_index += 1;
                 }
             }
+            (*m_RA_array)[i] = std::complex<float>(ra_value);
         }
     });
 
diff --git a/freud/order/RotationalAutocorrelation.h b/freud/order/RotationalAutocorrelation.h
index e15f958..8a25aa7 100644
--- a/freud/order/RotationalAutocorrelation.h
+++ b/freud/order/RotationalAutocorrelation.h
@@ -56,7 +56,7 @@ public:
     {
         // For efficiency, we precompute all required factorials for use during
         // the per-particle computation.
-        m_factorials = std::make_shared<util::ManagedArray<unsigned int>>(m_l + 1);
+        m_factorials = std::make_shared<util::ManagedArray<double>>(m_l + 1);
         (*m_factorials)[0] = 1;
         for (unsigned int i = 1; i <= m_l; i++)
         {
@@ -116,14 +116,14 @@ private:
      *  method to access the cached factorial values for the class's value of
      *  m_l.
      */
-    std::complex<float> hypersphere_harmonic(const std::complex<float> xi, std::complex<float> zeta,
-                                             const unsigned int m1, const unsigned int m2);
+    std::complex<double> hypersphere_harmonic(const std::complex<double> xi, std::complex<double> zeta,
+                                              const unsigned int m1, const unsigned int m2);
 
     unsigned int m_l; //!< Order of the hyperspherical harmonic.
     float m_Ft {0};   //!< Real value of calculated RA function.
 
     std::shared_ptr<util::ManagedArray<std::complex<float>>> m_RA_array; //!< Array of RA values per particle
-    std::shared_ptr<util::ManagedArray<unsigned int>> m_factorials;      //!< Array of cached factorials
+    std::shared_ptr<util::ManagedArray<double>> m_factorials;            //!< Array of cached factorials
 };
 
 }; }; // end namespace freud::order
-- 
2.43.0


From 0409130d4a9e6ad6c4b858aa7d2cbd8432d62650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 25/53] fix: LocalBondProjection checks the number of
 orientations

---
 freud/environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/environment.py b/freud/environment.py
index 92ec698..8ba6b1a 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -1054,7 +1054,9 @@ class LocalBondProjection(_PairCompute):
             system, query_points, neighbors
         )
 
-        orientations = freud.util._convert_array(orientations, shape=(None, 4))
+        orientations = freud.util._convert_array(
+            orientations, shape=(nq.points.shape[0], 4)
+        )
 
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
-- 
2.43.0


From 121e98f5ee6db3c4384811851910458d750448c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:46 +0000
Subject: [PATCH 26/53] fix: a rejected MSD.compute does not make the results
 of a fresh object available

---
 freud/msd.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/freud/msd.py b/freud/msd.py
index 21b4aed..e35cbc1 100644
--- a/freud/msd.py
+++ b/freud/msd.py
@@ -194,8 +194,6 @@ class MSD(_Compute):
         if reset:
             self._particle_msd = []
 
-        self._called_compute = True
-
         positions = freud.util._convert_array(positions, shape=(None, None, 3))
         if images is not None:
             images = freud.util._convert_array(
-- 
2.43.0


From f51e252352f61580d18bb7b371da11df11c8b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:26 +0000
Subject: [PATCH 27/53] fix: read-only arrays are accepted by center_of_mass,
 contains, LocalDensity, LocalBondProjection and AngularSeparationNeighbor

---
 freud/box/Box.h                                  |  4 ++--
 freud/box/export-Box.cc                          |  8 ++++----
 freud/box/export-Box.h                           |  4 ++--
 freud/density/export-LocalDensity.cc             |  4 ++--
 .../export-AngularSeparationNeighbor.cc          | 16 ++++++++--------
 freud/environment/export-LocalBondProjection.cc  | 16 ++++++++--------
 6 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index 34aa74b..65e7f6b 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -370,7 +370,7 @@ public:
      *  \param masses Optional array of masses, of length Nvecs
      *  \return Center of mass as a vec3<float>
      */
-    vec3<float> centerOfMass(vec3<float>* vecs, size_t Nvecs, const float* masses = nullptr) const
+    vec3<float> centerOfMass(const vec3<float>* vecs, size_t Nvecs, const float* masses = nullptr) const
     {
         // This roughly follows the implementation in
         // https://en.wikipedia.org/wiki/Center_of_mass#Systems_with_periodic_boundary_conditions
@@ -466,7 +466,7 @@ public:
         \param n_points The number of points.
         \param contains_mask Mask of points inside the box.
     */
-    void contains(vec3<float>* points, const unsigned int n_points, bool* contains_mask) const
+    void contains(const vec3<float>* points, const unsigned int n_points, bool* contains_mask) const
     {
         util::forLoopWrapper(0, n_points, [&](size_t begin, size_t end) {
             std::transform(&points[begin], &points[end], &contains_mask[begin],
diff --git a/freud/box/export-Box.cc b/freud/box/export-Box.cc
index 2d86e68..dfc2d9c 100644
--- a/freud/box/export-Box.cc
+++ b/freud/box/export-Box.cc
@@ -59,11 +59,11 @@ void unwrap(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs,
     box->unwrap(vecs_data, images_data, Nvecs, out_data);
 }
 
-std::vector<float> centerOfMass(const std::shared_ptr<Box>& box, const nb_array<float>& vecs,
+std::vector<float> centerOfMass(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs,
                                 const nb_array<const float, nb::shape<-1>>& masses)
 {
     const unsigned int Nvecs = vecs.shape(0);
-    auto* vecs_data = reinterpret_cast<vec3<float>*>(vecs.data());
+    const auto* vecs_data = reinterpret_cast<const vec3<float>*>(vecs.data());
     const auto* masses_data = reinterpret_cast<const float*>(masses.data());
     auto com = box->centerOfMass(vecs_data, Nvecs, masses_data);
     return {com.x, com.y, com.z};
@@ -104,11 +104,11 @@ void computeAllDistances(const std::shared_ptr<Box>& box, const nb_array<const f
     box->computeAllDistances(query_points_data, n_query_points, points_data, n_points, distances_data);
 }
 
-void contains(const std::shared_ptr<Box>& box, const nb_array<float>& points,
+void contains(const std::shared_ptr<Box>& box, const nb_array<const float>& points,
               const nb_array<bool, nb::ndim<1>>& contains_mask)
 {
     const unsigned int n_points = points.shape(0);
-    auto* points_data = reinterpret_cast<vec3<float>*>(points.data());
+    const auto* points_data = reinterpret_cast<const vec3<float>*>(points.data());
     auto* contains_mask_data = reinterpret_cast<bool*>(contains_mask.data());
     box->contains(points_data, n_points, contains_mask_data);
 }
diff --git a/freud/box/export-Box.h b/freud/box/export-Box.h
index e88938b..068d0e4 100644
--- a/freud/box/export-Box.h
+++ b/freud/box/export-Box.h
@@ -29,7 +29,7 @@ void wrap(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs, co
 void unwrap(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs,
             const nb_array<const int>& images, const nb_array<float>& out);
 
-std::vector<float> centerOfMass(const std::shared_ptr<Box>& box, const nb_array<float>& vecs,
+std::vector<float> centerOfMass(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs,
                                 const nb_array<const float, nanobind::shape<-1>>& masses);
 
 void center(const std::shared_ptr<Box>& box, const nb_array<float>& vecs,
@@ -43,7 +43,7 @@ void computeAllDistances(const std::shared_ptr<Box>& box, const nb_array<const f
                          const nb_array<const float>& points,
                          const nb_array<float, nanobind::ndim<2>>& distances);
 
-void contains(const std::shared_ptr<Box>& box, const nb_array<float>& points,
+void contains(const std::shared_ptr<Box>& box, const nb_array<const float>& points,
               const nb_array<bool, nanobind::ndim<1>>& contains_mask);
 
 }; }; }; // namespace freud::box::wrap
diff --git a/freud/density/export-LocalDensity.cc b/freud/density/export-LocalDensity.cc
index 55e5bcf..a6ce4d7 100644
--- a/freud/density/export-LocalDensity.cc
+++ b/freud/density/export-LocalDensity.cc
@@ -20,11 +20,11 @@ namespace wrap {
 
 void computeLocalDensity(const std::shared_ptr<LocalDensity>& self,
                          const std::shared_ptr<locality::NeighborQuery>& points,
-                         nb_array<float, nanobind::shape<-1, 3>>& query_points,
+                         nb_array<const float, nanobind::shape<-1, 3>>& query_points,
                          const unsigned int num_query_points, std::shared_ptr<locality::NeighborList>& nlist,
                          const locality::QueryArgs& qargs)
 {
-    auto* query_points_data = reinterpret_cast<vec3<float>*>(query_points.data());
+    const auto* query_points_data = reinterpret_cast<const vec3<float>*>(query_points.data());
     self->compute(points, query_points_data, num_query_points, nlist, qargs);
 }
 
diff --git a/freud/environment/export-AngularSeparationNeighbor.cc b/freud/environment/export-AngularSeparationNeighbor.cc
index b846697..131b610 100644
--- a/freud/environment/export-AngularSeparationNeighbor.cc
+++ b/freud/environment/export-AngularSeparationNeighbor.cc
@@ -23,16 +23,16 @@ namespace wrap {
 
 void compute(std::shared_ptr<AngularSeparationNeighbor>& angular_separation,
              const std::shared_ptr<locality::NeighborQuery>& nq,
-             nb_array<float, nanobind::shape<-1, 4>>& orientations,
-             nb_array<float, nanobind::shape<-1, 3>>& query_points,
-             nb_array<float, nanobind::shape<-1, 4>>& query_orientations,
-             nb_array<float, nanobind::shape<-1, 4>>& equiv_orientations,
+             nb_array<const float, nanobind::shape<-1, 4>>& orientations,
+             nb_array<const float, nanobind::shape<-1, 3>>& query_points,
+             nb_array<const float, nanobind::shape<-1, 4>>& query_orientations,
+             nb_array<const float, nanobind::shape<-1, 4>>& equiv_orientations,
              const std::shared_ptr<locality::NeighborList>& nlist, const locality::QueryArgs& qargs)
 {
-    auto* orientations_data = reinterpret_cast<quat<float>*>(orientations.data());
-    auto* query_points_data = reinterpret_cast<vec3<float>*>(query_points.data());
-    auto* query_orientations_data = reinterpret_cast<quat<float>*>(query_orientations.data());
-    auto* equiv_orientations_data = reinterpret_cast<quat<float>*>(equiv_orientations.data());
+    const auto* orientations_data = reinterpret_cast<const quat<float>*>(orientations.data());
+    const auto* query_points_data = reinterpret_cast<const vec3<float>*>(query_points.data());
+    const auto* query_orientations_data = reinterpret_cast<const quat<float>*>(query_orientations.data());
+    const auto* equiv_orientations_data = reinterpret_cast<const quat<float>*>(equiv_orientations.data());
     const unsigned int n_equiv_orientations = equiv_orientations.shape(0);
     const unsigned int n_query_points = query_orientations.shape(0);
     angular_separation->compute(nq, orientations_data, query_points_data, query_orientations_data,
diff --git a/freud/environment/export-LocalBondProjection.cc b/freud/environment/export-LocalBondProjection.cc
index 4dca8b8..625207a 100644
--- a/freud/environment/export-LocalBondProjection.cc
+++ b/freud/environment/export-LocalBondProjection.cc
@@ -23,16 +23,16 @@ namespace wrap {
 
 void compute(std::shared_ptr<LocalBondProjection>& local_bond_projection,
              const std::shared_ptr<locality::NeighborQuery>& nq,
-             nb_array<float, nanobind::shape<-1, 4>>& orientations,
-             nb_array<float, nanobind::shape<-1, 3>>& query_points,
-             nb_array<float, nanobind::shape<-1, 3>>& projected_vectors,
-             nb_array<float, nanobind::shape<-1, 4>>& equiv_orientations,
+             nb_array<const float, nanobind::shape<-1, 4>>& orientations,
+             nb_array<const float, nanobind::shape<-1, 3>>& query_points,
+             nb_array<const float, nanobind::shape<-1, 3>>& projected_vectors,
+             nb_array<const float, nanobind::shape<-1, 4>>& equiv_orientations,
              const std::shared_ptr<locality::NeighborList>& nlist, const locality::QueryArgs& qargs)
 {
-    auto* orientations_data = reinterpret_cast<quat<float>*>(orientations.data());
-    auto* query_points_data = reinterpret_cast<vec3<float>*>(query_points.data());
-    auto* proj_vectors_data = reinterpret_cast<vec3<float>*>(projected_vectors.data());
-    auto* equiv_orientations_data = reinterpret_cast<quat<float>*>(equiv_orientations.data());
+    const auto* orientations_data = reinterpret_cast<const quat<float>*>(orientations.data());
+    const auto* query_points_data = reinterpret_cast<const vec3<float>*>(query_points.data());
+    const auto* proj_vectors_data = reinterpret_cast<const vec3<float>*>(projected_vectors.data());
+    const auto* equiv_orientations_data = reinterpret_cast<const quat<float>*>(equiv_orientations.data());
     const unsigned int n_proj_vec = projected_vectors.shape(0);
     const unsigned int n_query_points = query_points.shape(0);
     const unsigned int n_equiv_orientations = equiv_orientations.shape(0);
-- 
2.43.0


From fbd186dd731ff78e74f17db0e5ff1e63e402c46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:26 +0000
Subject: [PATCH 28/53] fix: NeighborList.all_pairs accepts every array-like
 query_points

---
 freud/locality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/locality.py b/freud/locality.py
index 20b941c..8abc16d 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -587,7 +587,7 @@ class NeighborList:
 
         points = freud.util._convert_array(points, shape=points.shape, dtype=np.float32)
         query_points = freud.util._convert_array(
-            query_points, shape=query_points.shape, dtype=np.float32
+            query_points, shape=(None, 3), dtype=np.float32
         )
 
         result = cls()
-- 
2.43.0


From bcb533690311422493e2dcd8be6d1bff4480f333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:26 +0000
Subject: [PATCH 29/53] fix: DiffractionPattern.compute accepts any array-like
 weights

---
 freud/diffraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index 3bb4190..ff57a9c 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -732,7 +732,7 @@ class DiffractionPattern(_Compute):
 
         # Normalize weights s.t. S(0) = N
         if weights is not None:
-            weights = weights * len(weights) / np.sum(weights)
+            weights = np.asarray(weights) * len(weights) / np.sum(weights)
 
         # Map positions to [0, 1] and compute a histogram "image"
         # Use grid_size+1 bin edges so that there are grid_size bins
-- 
2.43.0


From c8445d6930f009c4cc8d04de3bf5894593317ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:34 +0000
Subject: [PATCH 30/53] fix: neighbour lists kept as results do not alias the
 list passed in by the caller

---
 freud/locality/NeighborComputeFunctional.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/locality/NeighborComputeFunctional.cc b/freud/locality/NeighborComputeFunctional.cc
index a1cca1a..b802606 100644
--- a/freud/locality/NeighborComputeFunctional.cc
+++ b/freud/locality/NeighborComputeFunctional.cc
@@ -26,7 +26,8 @@ std::shared_ptr<NeighborList> makeDefaultNlist(const std::shared_ptr<NeighborQue
     }
     else
     {
-        return_nlist = nlist;
+        // The caller keeps (and may modify) the given list, so results refer to a copy.
+        return_nlist = std::make_shared<NeighborList>(*nlist);
     }
     return_nlist->validate(num_query_points, nq->getNPoints());
     return return_nlist;
-- 
2.43.0


From e1a7b7e9c27612f3559644b6b70af9fce720f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 31/53] fix: DiffractionPattern keeps its own copy of the view
 orientation

---
 freud/diffraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index ff57a9c..4fc9fcc 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -781,7 +781,7 @@ class DiffractionPattern(_Compute):
         # Cache the view orientation and box matrix scale factor for
         # lazy evaluation of k-values and k-vectors
         self._box_matrix_scale_factor = np.max(system.box.to_matrix())
-        self._view_orientation = view_orientation
+        self._view_orientation = view_orientation.copy()
         self._k_scale_factor = (
             2 * np.pi * self.output_size / (self._box_matrix_scale_factor * zoom)
         )
-- 
2.43.0


From 96780a3cb05290222870e45d005a959d028f886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:57 +0000
Subject: [PATCH 32/53] fix: a rejected set_num_threads call leaves the
 reported number of threads unchanged

---
 freud/parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freud/parallel.py b/freud/parallel.py
index da7e6b3..542a9ab 100644
--- a/freud/parallel.py
+++ b/freud/parallel.py
@@ -33,10 +33,10 @@ def set_num_threads(nthreads=None):
     if nthreads is None or nthreads < 0:
         nthreads = 0
 
-    _num_threads = nthreads
-
     freud._parallel.setNumThreads(nthreads)
 
+    _num_threads = nthreads
+
 
 class NumThreads:
     r"""Context manager for managing the number of threads to use.
-- 
2.43.0


From 6dc38674fa66d39c7d0631728546780d8b8dda81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:13 +0000
Subject: [PATCH 33/53] fix: NumThreads restores the setting in force when it
 was entered

---
 freud/parallel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freud/parallel.py b/freud/parallel.py
index 542a9ab..d1b5f88 100644
--- a/freud/parallel.py
+++ b/freud/parallel.py
@@ -48,12 +48,14 @@ class NumThreads:
     """
 
     def __init__(self, N=None):
-        self.restore_N = _num_threads
+        self._restore = []
         self.N = N
 
     def __enter__(self):
+        previous = _num_threads
         set_num_threads(self.N)
+        self._restore.append(previous)
         return self
 
     def __exit__(self, *args):
-        set_num_threads(self.restore_N)
+        set_num_threads(self._restore.pop())
-- 
2.43.0


From eb3f0cc896c1b43660b5a157e02726b8063687ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 34/53] fix: LinkCell's estimated cell width fits boxes with
 few points

---
 freud/locality/LinkCell.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/freud/locality/LinkCell.cc b/freud/locality/LinkCell.cc
index 23379e1..f9d3ab6 100644
--- a/freud/locality/LinkCell.cc
+++ b/freud/locality/LinkCell.cc
@@ -233,6 +233,13 @@ LinkCell::LinkCell(const box::Box& box, const vec3<float>* points, unsigned int
         const unsigned int desired_num_cells
             = std::max(n_points / num_particle_per_cell, static_cast<unsigned int>(1));
         m_cell_width = std::cbrtf(box.getVolume() / static_cast<float>(desired_num_cells));
+        // Systems with few points in a small box must not get cells that are too wide.
+        vec3<float> const plane_distance = box.getNearestPlaneDistance();
+        m_cell_width = std::min(m_cell_width, std::min(plane_distance.x, plane_distance.y) * 0.5F);
+        if (!box.is2D())
+        {
+            m_cell_width = std::min(m_cell_width, plane_distance.z * 0.5F);
+        }
     }
 
     m_celldim = computeDimensions(box, m_cell_width);
-- 
2.43.0


From 59a715ce239b39e49ba2997a0b428ccee33b563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:26 +0000
Subject: [PATCH 35/53] fix: from_system reads the box vectors of MDAnalysis
 timesteps as rows

---
 freud/locality.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/locality.py b/freud/locality.py
index 8abc16d..6e548b9 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -321,7 +321,8 @@ class NeighborQuery:
             "MDAnalysis.coordinates.base.Timestep",
             "MDAnalysis.coordinates.timestep.Timestep",
         ):
-            system = (system.triclinic_dimensions, system.positions)
+            # MDAnalysis stores the box vectors as rows, freud as columns.
+            system = (np.transpose(system.triclinic_dimensions), system.positions)
 
         # GSD and HOOMD-blue 3 snapshot compatibility
         elif _match_class_path(
-- 
2.43.0


From 09394dc6dad5f6b09317fc3140d0a9394f35aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:16 +0000
Subject: [PATCH 36/53] fix: from_system keeps the periodicity of a 2D freud
 box next to particles

---
 freud/locality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/locality.py b/freud/locality.py
index 6e548b9..32a4b3d 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -365,7 +365,7 @@ class NeighborQuery:
         ):
             # Explicitly construct the box to silence warnings from box
             # constructor because HOOMD sets Lz=1 rather than 0 for 2D boxes.
-            if system.box.dimensions == 2:
+            if system.box.dimensions == 2 and not isinstance(system.box, freud.Box):
                 box = freud.Box(system.box.Lx, system.box.Ly, xy=system.box.xy)
             else:
                 box = system.box
-- 
2.43.0


From 3a1173a89c0dd1d7f26f1a25b2c7e2fe31b5f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:06 +0000
Subject: [PATCH 37/53] fix: from_system honours its dimensions argument

---
 freud/locality.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/freud/locality.py b/freud/locality.py
index 32a4b3d..769618e 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -375,6 +375,12 @@ class NeighborQuery:
         elif hasattr(system, "box") and hasattr(system, "points"):
             system = (system.box, system.points)
 
+        if dimensions is not None:
+            box, points = system
+            if not isinstance(box, freud.box.Box):
+                box = freud.box.Box.from_box(box, dimensions)
+            system = (freud.util._convert_box(box, dimensions), points)
+
         if cls == NeighborQuery:
             # If called from this abstract parent class, always make
             # :class:`~._RawPoints`.
-- 
2.43.0


From 974e8be2bea24ccbb168474aea938d3ded53a667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:59 +0000
Subject: [PATCH 38/53] fix: Interface and PeriodicBuffer accept every form of
 system

---
 freud/locality.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/freud/locality.py b/freud/locality.py
index 769618e..d5c9113 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -788,11 +788,7 @@ def _make_default_nq(neighbor_query):
     side, making the _RawPoints object is just so that compute functions on the
     C++ side don't require overloads to work.
 
-    Supported types for :code:`neighbor_query` include:
-    - :class:`~.locality.AABBQuery`
-    - :class:`~.locality.LinkCell`
-    - A tuple of :code:`(box, points)` where :code:`box` is a
-      :class:`~.box.Box` and :code:`points` is a :class:`numpy.ndarray`.
+    Any system supported by :meth:`NeighborQuery.from_system` is accepted.
 
     Args:
         neighbor_query (:class:`~.locality.NeighborQuery` - like object):
@@ -805,11 +801,7 @@ def _make_default_nq(neighbor_query):
             :class:`_RawPoints` built from an inferred :code:`box` and
             :code:`points`.
     """
-    if not isinstance(neighbor_query, NeighborQuery):
-        nq = _RawPoints(*neighbor_query)
-    else:
-        nq = neighbor_query
-    return nq
+    return NeighborQuery.from_system(neighbor_query)
 
 
 def _make_default_nlist(system, neighbors, query_points=None):
-- 
2.43.0


From 2a210dd94a1b6fcd7f5461089cae3089aa4404e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:04 +0000
Subject: [PATCH 39/53] fix: nearest LinkCell queries search every cell before
 returning fewer neighbors

---
 freud/locality/LinkCell.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/freud/locality/LinkCell.cc b/freud/locality/LinkCell.cc
index f9d3ab6..e125f24 100644
--- a/freud/locality/LinkCell.cc
+++ b/freud/locality/LinkCell.cc
@@ -589,13 +589,14 @@ NeighborBond LinkCellQueryIterator::next()
     float const r_min_sq = m_r_min * m_r_min;
 
     vec3<float> const plane_distance = m_neighbor_query->getBox().getNearestPlaneDistance();
-    float min_plane_distance = std::min(plane_distance.x, plane_distance.y);
+    // Fewer than k neighbors may only be returned once every cell was searched.
+    float max_plane_distance = std::max(plane_distance.x, plane_distance.y);
     if (!m_neighbor_query->getBox().is2D())
     {
-        min_plane_distance = std::min(min_plane_distance, plane_distance.z);
+        max_plane_distance = std::max(max_plane_distance, plane_distance.z);
     }
     unsigned int const max_range
-        = static_cast<unsigned int>(std::ceil(min_plane_distance / (2 * m_linkcell->getCellWidth()))) + 1;
+        = static_cast<unsigned int>(std::ceil(max_plane_distance / (2 * m_linkcell->getCellWidth()))) + 1;
 
     vec3<unsigned int> const point_cell(m_linkcell->getCellCoord(m_query_point));
     // NOLINTBEGIN(bugprone-narrowing-conversions): narrowing coversion is working as expected
-- 
2.43.0


From 3318e3062c7aa45912c10d900997db211ae2ceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:09 +0000
Subject: [PATCH 40/53] fix: do not adopt the box of a rejected frame in
 accumulated histograms

---
 freud/locality/BondHistogramCompute.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/locality/BondHistogramCompute.h b/freud/locality/BondHistogramCompute.h
index 790f2f1..e9b54d6 100644
--- a/freud/locality/BondHistogramCompute.h
+++ b/freud/locality/BondHistogramCompute.h
@@ -117,8 +117,9 @@ public:
                            const vec3<float>* query_points, unsigned int n_query_points,
                            std::shared_ptr<locality::NeighborList> nlist, locality::QueryArgs qargs, Func cf)
     {
-        m_box = neighbor_query->getBox();
         locality::loopOverNeighbors(neighbor_query, query_points, n_query_points, qargs, nlist, cf);
+        // Only describe the frame once it was accepted: rejected queries throw above.
+        m_box = neighbor_query->getBox();
         m_frame_counter++;
         m_n_points = neighbor_query->getNPoints();
         m_n_query_points = n_query_points;
-- 
2.43.0


From 4478904d9cf62d9422c2947d14b60c0cda8d56cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:40 +0000
Subject: [PATCH 41/53] fix: a rejected PMFTXYZ frame does not fix the number
 of equivalent orientations

---
 freud/pmft/PMFTXYZ.cc | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/freud/pmft/PMFTXYZ.cc b/freud/pmft/PMFTXYZ.cc
index 4cd2df2..a6fa13b 100644
--- a/freud/pmft/PMFTXYZ.cc
+++ b/freud/pmft/PMFTXYZ.cc
@@ -109,13 +109,9 @@ void PMFTXYZ::accumulate(const std::shared_ptr<locality::NeighborQuery>& neighbo
                          unsigned int num_equiv_orientations, std::shared_ptr<locality::NeighborList> nlist,
                          const freud::locality::QueryArgs& qargs)
 {
-    // Set the number of equivalent orientations the first time we compute
-    // (after a reset), then error on subsequent calls if it changes.
-    if (m_num_equiv_orientations == 0xffffffff)
-    {
-        m_num_equiv_orientations = num_equiv_orientations;
-    }
-    else if (m_num_equiv_orientations != num_equiv_orientations)
+    // The number of equivalent orientations is set by the first successful call
+    // (after a reset), error on subsequent calls if it changes.
+    if (m_num_equiv_orientations != 0xffffffff && m_num_equiv_orientations != num_equiv_orientations)
     {
         throw std::runtime_error(
             "The number of equivalent orientations must be constant while accumulating data into PMFTXYZ.");
@@ -142,6 +138,7 @@ void PMFTXYZ::accumulate(const std::shared_ptr<locality::NeighborQuery>& neighbo
                               m_local_histograms(v.x, v.y, v.z);
                           }
                       });
+    m_num_equiv_orientations = num_equiv_orientations;
 }
 
 }; }; // end namespace freud::pmft
-- 
2.43.0


From f4b65aec3b596be3f20facd6723b90facb20b85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:28 +0000
Subject: [PATCH 42/53] fix: GaussianDensity and SphereVoxelization reach the
 voxels near points outside an aperiodic face

---
 freud/density/GaussianDensity.cc    | 12 ++++++++----
 freud/density/SphereVoxelization.cc | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/freud/density/GaussianDensity.cc b/freud/density/GaussianDensity.cc
index ce5d8d4..f22883d 100644
--- a/freud/density/GaussianDensity.cc
+++ b/freud/density/GaussianDensity.cc
@@ -82,10 +82,14 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
     const float grid_size_y = Ly / static_cast<float>(m_width.y);
     const float grid_size_z = m_box.is2D() ? 0 : Lz / static_cast<float>(m_width.z);
 
-    // Find the number of bins whose centers can be within r_max, visiting no bin twice
-    const int bin_cut_x = int(std::min(m_r_max / grid_size_x + 0.5F, float(m_width.x)));
-    const int bin_cut_y = int(std::min(m_r_max / grid_size_y + 0.5F, float(m_width.y)));
-    const int bin_cut_z = m_box.is2D() ? 0 : int(std::min(m_r_max / grid_size_z + 0.5F, float(m_width.z)));
+    // Find the number of bins whose centers can be within r_max, visiting no bin twice. Bins repeat only
+    // along periodic dimensions: along the others, points can be any number of bins away from the grid.
+    const auto bin_cut = [](float cut, unsigned int width, bool is_periodic) {
+        return int(is_periodic ? std::min(cut, float(width)) : cut);
+    };
+    const int bin_cut_x = bin_cut(m_r_max / grid_size_x + 0.5F, m_width.x, periodic.x);
+    const int bin_cut_y = bin_cut(m_r_max / grid_size_y + 0.5F, m_width.y, periodic.y);
+    const int bin_cut_z = m_box.is2D() ? 0 : bin_cut(m_r_max / grid_size_z + 0.5F, m_width.z, periodic.z);
     const float r_max_sq = m_r_max * m_r_max;
     const float sigmasq = m_sigma * m_sigma;
     const float normalization_base = float(1.0) / std::sqrt(constants::TWO_PI * sigmasq);
diff --git a/freud/density/SphereVoxelization.cc b/freud/density/SphereVoxelization.cc
index 7b197ed..0536fc6 100644
--- a/freud/density/SphereVoxelization.cc
+++ b/freud/density/SphereVoxelization.cc
@@ -78,10 +78,14 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
     const float grid_size_y = Ly / static_cast<float>(m_width.y);
     const float grid_size_z = m_box.is2D() ? 0 : Lz / static_cast<float>(m_width.z);
 
-    // Find the number of bins whose centers can be within r_max, visiting no bin twice
-    const int bin_cut_x = int(std::min(m_r_max / grid_size_x + 0.5F, float(m_width.x)));
-    const int bin_cut_y = int(std::min(m_r_max / grid_size_y + 0.5F, float(m_width.y)));
-    const int bin_cut_z = m_box.is2D() ? 0 : int(std::min(m_r_max / grid_size_z + 0.5F, float(m_width.z)));
+    // Find the number of bins whose centers can be within r_max, visiting no bin twice. Bins repeat only
+    // along periodic dimensions: along the others, points can be any number of bins away from the grid.
+    const auto bin_cut = [](float cut, unsigned int width, bool is_periodic) {
+        return int(is_periodic ? std::min(cut, float(width)) : cut);
+    };
+    const int bin_cut_x = bin_cut(m_r_max / grid_size_x + 0.5F, m_width.x, periodic.x);
+    const int bin_cut_y = bin_cut(m_r_max / grid_size_y + 0.5F, m_width.y, periodic.y);
+    const int bin_cut_z = m_box.is2D() ? 0 : bin_cut(m_r_max / grid_size_z + 0.5F, m_width.z, periodic.z);
     const float r_max_sq = m_r_max * m_r_max;
 
     util::forLoopWrapper(0, n_points, [&](size_t begin, size_t end) {
-- 
2.43.0


From 103033523fe2daa95a577e6e430bc35229b8c618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:21 +0000
Subject: [PATCH 43/53] fix: computes reject neighbor lists made for other
 numbers of points

---
 freud/locality/NeighborComputeFunctional.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freud/locality/NeighborComputeFunctional.h b/freud/locality/NeighborComputeFunctional.h
index d43cb37..9759058 100644
--- a/freud/locality/NeighborComputeFunctional.h
+++ b/freud/locality/NeighborComputeFunctional.h
@@ -118,6 +118,7 @@ void loopOverNeighborsIterator(const std::shared_ptr<NeighborQuery>& neighbor_qu
     // check if nlist exists
     if (nlist != nullptr)
     {
+        nlist->validate(n_query_points, neighbor_query->getNPoints());
         util::forLoopWrapper(
             0, n_query_points,
             [&](size_t begin, size_t end) {
@@ -179,6 +180,7 @@ void loopOverNeighbors(const std::shared_ptr<NeighborQuery>& neighbor_query, con
     // check if nlist exists
     if (nlist != nullptr)
     {
+        nlist->validate(n_query_points, neighbor_query->getNPoints());
         util::forLoopWrapper(
             0, nlist->getNumBonds(),
             [&](size_t begin, size_t end) {
-- 
2.43.0


From 4b03a3cbbe08288e646f59e6ea76820bbfc5af72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:03 +0000
Subject: [PATCH 44/53] fix: LinkCell rejects a negative cell width

---
 freud/locality/LinkCell.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freud/locality/LinkCell.cc b/freud/locality/LinkCell.cc
index e125f24..a360fc3 100644
--- a/freud/locality/LinkCell.cc
+++ b/freud/locality/LinkCell.cc
@@ -222,6 +222,11 @@ LinkCell::LinkCell() : NeighborQuery() {}
 LinkCell::LinkCell(const box::Box& box, const vec3<float>* points, unsigned int n_points, float cell_width)
     : NeighborQuery(box, points, n_points), m_cell_width(cell_width)
 {
+    if (cell_width < 0)
+    {
+        throw std::invalid_argument("LinkCell requires cell_width to be non-negative.");
+    }
+
     // If no cell width is provided, we calculate the system density and
     // estimate the number of cells that would lead to 10 particles per cell.
     // Want n_points/num_cells = 10
-- 
2.43.0


From e42aa3c764387afeddda5498a5b357d4e0e6562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:07 +0000
Subject: [PATCH 45/53] fix: AABBQuery and CellQuery find the neighbors of
 points outside the box

---
 freud/locality/AABBQuery.cc    | 20 +++++++++-----------
 freud/locality/AABBQuery.h     |  9 ++++++++-
 freud/locality/CellQuery.cc    |  6 +++---
 freud/locality/NeighborQuery.h | 17 +++++++++++++++++
 4 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/freud/locality/AABBQuery.cc b/freud/locality/AABBQuery.cc
index 3d65c7e..f2853a4 100644
--- a/freud/locality/AABBQuery.cc
+++ b/freud/locality/AABBQuery.cc
@@ -33,14 +33,14 @@ AABBQuery::querySingle(const vec3<float> query_point, unsigned int query_point_i
     this->validateQueryArgs(args);
     if (args.mode == QueryType::ball)
     {
-        return std::make_shared<AABBQueryBallIterator>(this, query_point, query_point_idx, args.r_max,
-                                                       args.r_min, args.exclude_ii);
+        return std::make_shared<AABBQueryBallIterator>(this, getImageInBox(query_point), query_point_idx,
+                                                       args.r_max, args.r_min, args.exclude_ii);
     }
     if (args.mode == QueryType::nearest)
     {
-        return std::make_shared<AABBQueryIterator>(this, query_point, query_point_idx, args.num_neighbors,
-                                                   args.r_guess, args.r_max, args.r_min, args.scale,
-                                                   args.exclude_ii);
+        return std::make_shared<AABBQueryIterator>(this, getImageInBox(query_point), query_point_idx,
+                                                   args.num_neighbors, args.r_guess, args.r_max, args.r_min,
+                                                   args.scale, args.exclude_ii);
     }
     throw std::runtime_error("Invalid query mode provided to query function in AABBQuery.");
 }
@@ -48,6 +48,7 @@ AABBQuery::querySingle(const vec3<float> query_point, unsigned int query_point_i
 void AABBQuery::setupTree(unsigned int Np)
 {
     m_aabbs.resize(Np);
+    m_points_in_box.resize(Np);
 }
 
 void AABBQuery::buildTree(const vec3<float>* points, unsigned int Np)
@@ -56,11 +57,12 @@ void AABBQuery::buildTree(const vec3<float>* points, unsigned int Np)
     for (unsigned int i = 0; i < Np; ++i)
     {
         // Make a point AABB
-        vec3<float> my_pos(points[i]);
+        vec3<float> my_pos(getImageInBox(points[i]));
         if (m_box.is2D())
         {
             my_pos.z = 0;
         }
+        m_points_in_box[i] = my_pos;
         m_aabbs[i] = AABB(my_pos, i);
     }
 
@@ -115,11 +117,7 @@ NeighborBond AABBQueryBallIterator::next()
                         }
 
                         // Read in the position of j
-                        vec3<float> pos_j((*m_neighbor_query)[j]);
-                        if (m_neighbor_query->getBox().is2D())
-                        {
-                            pos_j.z = 0;
-                        }
+                        vec3<float> const pos_j(m_aabb_query->getPointInBox(j));
 
                         // Compute distance
                         const vec3<float> r_ij = pos_j - pos_i_image;
diff --git a/freud/locality/AABBQuery.h b/freud/locality/AABBQuery.h
index a98fefc..933a330 100644
--- a/freud/locality/AABBQuery.h
+++ b/freud/locality/AABBQuery.h
@@ -52,6 +52,12 @@ public:
     std::shared_ptr<NeighborQueryPerPointIterator>
     querySingle(const vec3<float> query_point, unsigned int query_point_idx, QueryArgs args) const override;
 
+    //! Get the image inside the box of the point with a given index.
+    const vec3<float>& getPointInBox(unsigned int index) const
+    {
+        return m_points_in_box[index];
+    }
+
     AABBTree m_aabb_tree; //!< AABB tree of points
 
 protected:
@@ -78,7 +84,8 @@ private:
     //! Driver to build AABB trees
     void buildTree(const vec3<float>* points, unsigned int N);
 
-    std::vector<AABB> m_aabbs; //!< Flat array of AABBs of all types
+    std::vector<AABB> m_aabbs;                //!< Flat array of AABBs of all types
+    std::vector<vec3<float>> m_points_in_box; //!< The image inside the box of every point
 };
 
 //! Parent class of AABB iterators that knows how to traverse general AABB tree structures.
diff --git a/freud/locality/CellQuery.cc b/freud/locality/CellQuery.cc
index 5419e55..a1094b4 100644
--- a/freud/locality/CellQuery.cc
+++ b/freud/locality/CellQuery.cc
@@ -45,8 +45,8 @@ CellQuery::querySingle(const vec3<float> query_point, unsigned int query_point_i
     this->validateQueryArgs(args);
     if (args.mode == QueryType::ball)
     {
-        return std::make_shared<CellQueryBallIterator>(this, query_point, query_point_idx, args.r_max,
-                                                       args.r_min, args.exclude_ii);
+        return std::make_shared<CellQueryBallIterator>(this, getImageInBox(query_point), query_point_idx,
+                                                       args.r_max, args.r_min, args.exclude_ii);
     }
     throw std::runtime_error("Invalid query mode provided to query function in CellQuery.");
 }
@@ -91,7 +91,7 @@ void CellQuery::buildGrid(const float r_cut) const
     // Iterate over particles and images, adding ghosts where necessary
     for (size_t i = 0; i < m_n_points; i++)
     {
-        const vec3<float> local_point = m_points[i];
+        const vec3<float> local_point = getImageInBox(m_points[i]);
 
         // Compute the axis-aligned (?) ellipse that represents our r_cut in fractional
         // coordinates.
diff --git a/freud/locality/NeighborQuery.h b/freud/locality/NeighborQuery.h
index fc83024..894465e 100644
--- a/freud/locality/NeighborQuery.h
+++ b/freud/locality/NeighborQuery.h
@@ -291,6 +291,23 @@ protected:
         }
     }
 
+    //! Get the image of a point that lies inside the box or on its faces.
+    /*! Searches that only visit the images next to the box need this image of every point. A point inside
+     *  the box or on its faces is returned unchanged.
+     *
+     *  \param point The point.
+     */
+    vec3<float> getImageInBox(const vec3<float>& point) const
+    {
+        const vec3<float> f = m_box.makeFractional(point);
+        const auto inside = [](float x) { return x >= 0 && x <= 1; };
+        if (inside(f.x) && inside(f.y) && (m_box.is2D() || inside(f.z)))
+        {
+            return point;
+        }
+        return m_box.wrap(point);
+    }
+
     const box::Box m_box;        //!< Simulation box where the particles belong.
     const vec3<float>* m_points; //!< Point coordinates.
     unsigned int m_n_points;     //!< Number of points.
-- 
2.43.0


From 090eb4ab98a2db4820f56e02ef113175d26cca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:35 +0000
Subject: [PATCH 46/53] fix: nearest neighbor queries for no neighbors are
 rejected

---
 freud/locality/NeighborQuery.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freud/locality/NeighborQuery.h b/freud/locality/NeighborQuery.h
index 894465e..e446798 100644
--- a/freud/locality/NeighborQuery.h
+++ b/freud/locality/NeighborQuery.h
@@ -216,6 +216,10 @@ protected:
                 throw std::runtime_error("You must set num_neighbors in the query arguments when performing "
                                          "number of neighbor queries.");
             }
+            if (args.num_neighbors == 0)
+            {
+                throw std::invalid_argument("NeighborQuery requires num_neighbors to be positive.");
+            }
             if (args.r_max == DEFAULT_R_MAX)
             {
                 args.r_max = std::numeric_limits<float>::infinity();
-- 
2.43.0


From 8023ce4a301292359ce20c4488d6e4b90c9ce564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:40 +0000
Subject: [PATCH 47/53] fix: PMFTXY plots show x horizontally and y vertically

---
 freud/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/plot.py b/freud/plot.py
index 1d81f80..bbd5e0f 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -361,7 +361,7 @@ def pmft_plot(pmft, ax=None, cmap="viridis"):
     cax = ax_divider.append_axes("right", size="7%", pad="10%")
 
     im = ax.imshow(
-        np.flipud(pmft_arr),
+        np.flipud(pmft_arr.T),
         extent=[xlims[0], xlims[1], ylims[0], ylims[1]],
         interpolation="nearest",
         cmap=cmap,
-- 
2.43.0


From b4380b1b085ed0c13502127d1ce824beaa9d7e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:09 +0000
Subject: [PATCH 48/53] fix: box and system plots show their title

---
 freud/plot.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/freud/plot.py b/freud/plot.py
index bbd5e0f..906c855 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -154,6 +154,9 @@ def box_plot(box, title=None, ax=None, image=None, *args, **kwargs):
         ]
         _set_3d_axes_equal(ax, limits)
 
+    if title is not None:
+        ax.set_title(title)
+
     return ax
 
 
@@ -204,6 +207,9 @@ def system_plot(system, title=None, ax=None, *args, **kwargs):
         ]
         _set_3d_axes_equal(ax, limits=limits)
 
+    if title is not None:
+        ax.set_title(title)
+
     return ax, sc
 
 
-- 
2.43.0


From ec4f756da5728b618ea82a6e528133497975e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:05 +0000
Subject: [PATCH 49/53] fix: plots of 3D boxes pass their arguments on to every
 edge

---
 freud/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freud/plot.py b/freud/plot.py
index 906c855..1f9898e 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -141,9 +141,9 @@ def box_plot(box, title=None, ax=None, image=None, *args, **kwargs):
             corners[[2, 6]],
             corners[[3, 7]],
         ]
+        color = kwargs.pop("color", "k")
         for path in paths:
-            color = kwargs.pop("color", "k")
-            ax.plot(path[:, 0], path[:, 1], path[:, 2], color=color)
+            ax.plot(path[:, 0], path[:, 1], path[:, 2], color=color, *args, **kwargs)  # noqa: B026
         ax.set_xlabel("$x$")
         ax.set_ylabel("$y$")
         ax.set_zlabel("$z$")
-- 
2.43.0


From 7267af073b73960f1e80f779a50853636a2da72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:17 +0000
Subject: [PATCH 50/53] fix: the representation of an RDF tells its
 normalization mode

---
 freud/density.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/density.py b/freud/density.py
index de6e865..bf31e47 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -664,7 +664,8 @@ class RDF(_SpatialHistogram1D):
     def __repr__(self):
         return (
             f"freud.density.{type(self).__name__}(bins={len(self.bin_centers)}, "
-            f"r_max={self.bounds[1]}, r_min={self.bounds[0]})"
+            f"r_max={self.bounds[1]}, r_min={self.bounds[0]}, "
+            f"normalization_mode='{self.mode}')"
         )
 
     def plot(self, ax=None):
-- 
2.43.0


From 29ecf5682cdeef100f21f817b194a4ca91169c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:09 +0000
Subject: [PATCH 51/53] fix: StaticStructureFactorDebye remembers k_min and
 k_max as they were given

---
 freud/diffraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index 4fc9fcc..d44164d 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -142,6 +142,7 @@ class StaticStructureFactorDebye(_StaticStructureFactor):
         self._cpp_obj = freud._diffraction.StaticStructureFactorDebye(
             num_k_values, k_max, k_min
         )
+        self._bounds = (float(k_min), float(k_max))
 
     @property
     def num_k_values(self):
@@ -157,8 +158,7 @@ class StaticStructureFactorDebye(_StaticStructureFactor):
     def bounds(self):
         """tuple: A tuple indicating the smallest and largest :math:`k` values
         used."""
-        k_values = self.k_values
-        return (k_values[0], k_values[len(k_values) - 1])
+        return self._bounds
 
     def compute(self, system, query_points=None, N_total=None, reset=True):
         r"""Computes static structure factor.
-- 
2.43.0


From d3a676f035072bc60fb056e4645692bdaf1ec0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:17 +0000
Subject: [PATCH 52/53] fix: whether a box is cubic does not depend on the unit
 of length

---
 freud/box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/box.py b/freud/box.py
index 940b747..e83b565 100644
--- a/freud/box.py
+++ b/freud/box.py
@@ -549,7 +549,7 @@ class Box:  # noqa: PLW1641
                 [self.Lx, self.Lx, self.Ly, self.Ly, self.Lz, self.Lz],
                 [self.Ly, self.Lz, self.Lx, self.Lz, self.Lx, self.Ly],
                 rtol=1e-5,
-                atol=1e-5,
+                atol=0,
             )
             and np.allclose(0, [self.xy, self.yz, self.xz], rtol=1e-5, atol=1e-5)
         )
-- 
2.43.0


From c83f220336640bc967d9d638526d6e22553547c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:21 +0000
Subject: [PATCH 53/53] fix: RDF allocates one shell volume per bin, not bins^2
 and bins^3 of them

---
 freud/density/RDF.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freud/density/RDF.cc b/freud/density/RDF.cc
index b072d7d..2c20c85 100644
--- a/freud/density/RDF.cc
+++ b/freud/density/RDF.cc
@@ -49,8 +49,8 @@ RDF::RDF(unsigned int bins, float r_max, float r_min) : BondHistogramCompute()
     m_N_r = std::make_shared<util::ManagedArray<float>>(m_histogram.shape());
 
     // Precompute the cell volumes to speed up later calculations.
-    m_vol_array2D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins, bins});
-    m_vol_array3D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins, bins, bins});
+    m_vol_array2D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins});
+    m_vol_array3D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins});
     const float volume_prefactor = (float(4.0) / float(3.0)) * M_PI;
     std::vector<float> bin_boundaries = getBinEdges()[0];
 
-- 
2.43.0

