From 63da5c65e43e1c1bae3e01b31dbe759d7d73ca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 01/50] fix: offset the breakpoints of the second path when
 concatenating paths

Path.__rshift__ appended the breakpoints of the second path without
adding the length of the first path, so the corners of the second path
ended up at the wrong place (and out of order) on the combined path.
---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index d9de84b..aeb9c94 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -231,7 +231,7 @@ class Path(GeometricObject):
             else:
                 return other(t - self.path_length)
         
-        return Path(f, total, self.breakpoints + [self.path_length] + other.breakpoints, name=self.name)
+        return Path(f, total, self.breakpoints + [self.path_length] + [self.path_length + b for b in other.breakpoints], name=self.name)
 
     def starting_point(self):
         """Returns the starting point of the path.
-- 
2.43.0


From 5ade92b5a667bd8fbc882993bb311ad8ed019cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 02/50] fix: adding a PathCollection to a Path

path + collection put the list of paths itself in the collection, which
raised an AssertionError.
---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index aeb9c94..e4a592d 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -684,7 +684,7 @@ class Path(GeometricObject):
             return PathCollection([self, other])
         
         if isinstance(other, PathCollection):
-            return PathCollection([self] + [other.paths])
+            return PathCollection([self] + other.paths)
 
         return NotImplemented
      
-- 
2.43.0


From ef04963fe32772a25a9ffb3228e5fa75a399064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 03/50] fix: return the collection from PathCollection.__iadd__
 and SurfaceCollection.__iadd__

'collection += path' rebound the name to None.
---
 traceon/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index e4a592d..af55ab7 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -806,6 +806,7 @@ class PathCollection(GeometricObject):
             self.paths.append(other)
         else:
             self.paths.extend(other.paths)
+        return self
        
     def revolve_x(self, angle=2*pi):
         return self._map_to_surfaces(Path.revolve_x, angle=angle)
@@ -1370,6 +1371,7 @@ class SurfaceCollection(GeometricObject):
             self.surfaces.append(other)
         else:
             self.surfaces.extend(other.surfaces)
+        return self
 
     def __str__(self):
         return f"<SurfaceCollection with {len(self.surfaces)} surfaces, name: {self.name}>"
-- 
2.43.0


From b6a7cc0507fb163fa5c2abdcbd18815dc9de2cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 04/50] fix: Surface.extrude_boundary_by_path extruded by a
 vector

It passed the path on to PathCollection.extrude, which raised an exception.
---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index af55ab7..efa2b60 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -1197,7 +1197,7 @@ class Surface(GeometricObject):
         SurfaceCollection"""
         
         boundary = self.get_boundary_paths()
-        extruded_boundary = boundary.extrude(path)
+        extruded_boundary = boundary.extrude_by_path(path)
 
         if enclose:
             path_vector = path.endpoint() - path.starting_point()
-- 
2.43.0


From fd20ac06cd68126ddd55f1575110264443d531cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 05/50] fix: accept integer points in Path.arc

The in-place division failed on an integer array.
---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index efa2b60..8a0ebe9 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -382,7 +382,7 @@ class Path(GeometricObject):
         Returns
         ----------------------------
         Path"""
-        start_arr, center_arr, end_arr = np.array(start), np.array(center), np.array(end)
+        start_arr, center_arr, end_arr = [np.array(p, dtype=np.float64) for p in (start, center, end)]
          
         x_unit = start_arr - center_arr
         x_unit /= np.linalg.norm(x_unit)
-- 
2.43.0


From e2caaf53aa92c052fd457f97a2729f44e04c8de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 06/50] fix: revolve_y turned clockwise

Path.revolve_y is documented to revolve anti-clockwise around the y-axis,
but it turned the other way: it did not match rotate(Ry=...), and the cap
added by Surface.revolve_boundary_y did not join up with the revolved
boundary.
---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 8a0ebe9..438287d 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -448,7 +448,7 @@ class Path(GeometricObject):
             p = self(u)
             theta = atan2(p[2], p[0])
             r = sqrt(p[0]*p[0] + p[2]*p[2])
-            return np.array([r*cos(theta + v/length2*angle), p[1], r*sin(theta + v/length2*angle)])
+            return np.array([r*cos(theta - v/length2*angle), p[1], r*sin(theta - v/length2*angle)])
          
         return Surface(f, self.path_length, length2, self.breakpoints, name=self.name)
     
-- 
2.43.0


From 9d9583f5b21106114cfa777f032a16d0cbf9db66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 07/50] fix: Surface.from_boundary_paths did not reproduce
 curved boundary paths

The surface is documented to have the four given paths as its boundary, but
half the sum of the two ruled surfaces only does so when all paths are
straight lines. Use the Coons patch. The third and fourth path are traversed
backwards, so mirror their breakpoints as well.
---
 traceon/geometry.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 438287d..2243d0d 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -994,16 +994,18 @@ class Surface(GeometricObject):
             c = v
             d = u
             
-            return 1/2*(a*p1(u*p1.path_length) + \
+            # Coons patch, which coincides with the given paths on the boundary
+            return a*p1(u*p1.path_length) + \
                         b*p4((1-v)*p4.path_length) + \
                         c*p3((1-u)*p3.path_length) + \
-                        d*p2(v*p2.path_length))
+                        d*p2(v*p2.path_length) - \
+                        (a*b*p1.starting_point() + a*d*p2.starting_point() + c*d*p3.starting_point() + c*b*p4.starting_point())
         
         # Scale the breakpoints appropriately
         b1 = sorted([b/p1.path_length * path_length_p1_and_p3 for b in p1.breakpoints] + \
-                [b/p3.path_length * path_length_p1_and_p3 for b in p3.breakpoints])
+                [(1-b/p3.path_length) * path_length_p1_and_p3 for b in p3.breakpoints])
         b2 = sorted([b/p2.path_length * path_length_p2_and_p4 for b in p2.breakpoints] + \
-                [b/p4.path_length * path_length_p2_and_p4 for b in p4.breakpoints])
+                [(1-b/p4.path_length) * path_length_p2_and_p4 for b in p4.breakpoints])
         
         return Surface(f, path_length_p1_and_p3, path_length_p2_and_p4, b1, b2)
      
-- 
2.43.0


From 56e4dea65952702cf699e918f91e20a385005cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 08/50] fix: rotating over an angle of zero

GeometricObject.rotate raised an UnboundLocalError when all angles are zero.
---
 traceon/mesher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 8ea0b68..31f8fee 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -88,6 +88,8 @@ class GeometricObject(ABC):
         origin = np.array(origin)
         assert origin.shape == (3,), "Please supply a 3D point for origin"
          
+        matrix = np.eye(3)
+
         if Rx != 0.:
             matrix = np.array([[1, 0, 0],
                 [0, np.cos(Rx), -np.sin(Rx)],
-- 
2.43.0


From a69edecc195f2e8c45a776911c4ab7268a6f47ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 09/50] fix: holes in surface meshes when a quad is split in
 both directions one after the other

A quad which is first split in only one direction spans two indices in the
other direction. A later split in that other direction assumed it spanned a
single index, and dropped half of the quad from the mesh. Split at the middle
of the actual index range.
---
 traceon/mesher.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 31f8fee..c402427 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -997,16 +997,16 @@ def _subdivide_quads(pstack, mesh_size, to_subdivide=[], quads=[]):
         v = vertical > ms or (vertical > 2.5*horizontal and vertical > 1/8*ms)
             
         if h and v: # Split both horizontally and vertically
-            to_subdivide.append((depth+1, 2*i0, 2*i0+1, 2*j0, 2*j0+1))
-            to_subdivide.append((depth+1, 2*i0, 2*i0+1, 2*j0+1, 2*j0+2))
-            to_subdivide.append((depth+1, 2*i0+1, 2*i0+2, 2*j0, 2*j0+1))
-            to_subdivide.append((depth+1, 2*i0+1, 2*i0+2, 2*j0+1, 2*j0+2))
+            to_subdivide.append((depth+1, 2*i0, i0+i1, 2*j0, j0+j1))
+            to_subdivide.append((depth+1, 2*i0, i0+i1, j0+j1, 2*j1))
+            to_subdivide.append((depth+1, i0+i1, 2*i1, 2*j0, j0+j1))
+            to_subdivide.append((depth+1, i0+i1, 2*i1, j0+j1, 2*j1))
         elif h and not v: # Split only horizontally
-            to_subdivide.append((depth+1, 2*i0, 2*i1, 2*j0, 2*j0+1))
-            to_subdivide.append((depth+1, 2*i0, 2*i1, 2*j0+1, 2*j0+2)) 
+            to_subdivide.append((depth+1, 2*i0, 2*i1, 2*j0, j0+j1))
+            to_subdivide.append((depth+1, 2*i0, 2*i1, j0+j1, 2*j1)) 
         elif v and not h: # Split only vertically
-            to_subdivide.append((depth+1, 2*i0, 2*i0+1, 2*j0, 2*j1))
-            to_subdivide.append((depth+1, 2*i0+1, 2*i0+2, 2*j0, 2*j1))
+            to_subdivide.append((depth+1, 2*i0, i0+i1, 2*j0, 2*j1))
+            to_subdivide.append((depth+1, i0+i1, 2*i1, 2*j0, 2*j1))
         else: # We are done, both sides are within mesh size limits
             quads.append((depth, i0, i1, j0, j1))
 
-- 
2.43.0


From e2c44fc1b40c7bec6f03fcce7bcac69108187282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 10/50] fix: garbled mesh for surfaces with breakpoints in both
 directions

Surface._sections yields the sections with the second coordinate running
fastest, but the points on the edges between sections were copied as if the
first coordinate runs fastest. With breakpoints in both directions the wrong
sections were stitched together.
---
 traceon/mesher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index c402427..ab2c3bd 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -1052,11 +1052,11 @@ def _mesh(surface, mesh_size, start_depth=2, name=None, ensure_outward_normals=T
 
     for i in range(Nx-1):
         for j in range(Ny): # Horizontal copying
-            _copy_over_edge(point_with_quads[j*Nx + i][-1, :], point_with_quads[j*Nx + i + 1][0, :])
+            _copy_over_edge(point_with_quads[i*Ny + j][-1, :], point_with_quads[(i+1)*Ny + j][0, :])
      
     for i in range(Nx):
         for j in range(Ny-1): # Vertical copying
-            _copy_over_edge(point_with_quads[j*Nx + i][:, -1], point_with_quads[(j+1)*Nx + i][:, 0])
+            _copy_over_edge(point_with_quads[i*Ny + j][:, -1], point_with_quads[i*Ny + j + 1][:, 0])
      
     points = np.array(points)
     triangles = np.concatenate([pq.to_triangles() for pq in point_with_quads], axis=0)
-- 
2.43.0


From e63f92d90358b087421bd6af8d914d6d87d739bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 11/50] fix: Mesh.flip_normals had no effect on named groups

The constructor of the flipped mesh turned the normals of every named group
outwards again.
---
 traceon/mesher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index ab2c3bd..b6b4fe0 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -477,7 +477,8 @@ class Mesh(Saveable, GeometricObject):
         
         return Mesh(self.points, lines, triangles,
             physical_to_lines=self.physical_to_lines,
-            physical_to_triangles=self.physical_to_triangles)
+            physical_to_triangles=self.physical_to_triangles,
+            ensure_outward_normals=False)
      
     def remove_lines(self):
         """Remove all the lines from the mesh.
-- 
2.43.0


From 3bb1c419cbd464ecf9f2da653cf0af118f1693d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 12/50] fix: normals pointing inwards were lost in the
 conversion to higher order elements

Excitation.add_electrostatic_boundary turns the normals of the boundary
inwards, but the conversion to higher order elements done by the solver
turned them outwards again, such that E.n = 0 did not hold on the inside
of the boundary.
---
 traceon/mesher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index b6b4fe0..ffc3685 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -544,7 +544,8 @@ class Mesh(Saveable, GeometricObject):
 
         return Mesh(points=points,
             lines=lines, physical_to_lines=self.physical_to_lines,
-            triangles=triangles, physical_to_triangles=self.physical_to_triangles)
+            triangles=triangles, physical_to_triangles=self.physical_to_triangles,
+            ensure_outward_normals=False)
      
     def __str__(self):
         physical_lines = ', '.join(self.physical_to_lines.keys())
-- 
2.43.0


From 95f03ffbde66fb36c13c56b4bb9b39d41093cd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 13/50] fix: add_magnetostatic_boundary printed to stdout
 regardless of the log level

---
 traceon/excitation.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/traceon/excitation.py b/traceon/excitation.py
index f7c7ea7..d3c31d1 100644
--- a/traceon/excitation.py
+++ b/traceon/excitation.py
@@ -224,7 +224,6 @@ class Excitation:
         """
         if ensure_inward_normals:
             for electrode in args:
-                print('flipping normals', electrode)
                 self.mesh.ensure_inward_normals(electrode)
         
         self.add_magnetizable(**{a:0 for a in args})
-- 
2.43.0


From f1da176136b9fe223acd6cb6f76cbc9e779cb5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 14/50] fix: arithmetic on fields computed by the boundary
 element method

Field*number, number*field and -field accessed the point charges of their
argument and raised an AttributeError or TypeError, field-field called a
method which does not exist, and no operation worked on Field3D_BEM as its
constructor does not accept the current charges that are passed to it.
---
 traceon/solver.py | 52 +++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index 05c8c3e..ae48fbc 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -574,40 +574,34 @@ class FieldBEM(Field, ABC):
         return len(self.magnetostatic_point_charges) > 0 or len(self.current_point_charges) > 0 
      
     def __add__(self, other):
+        if not isinstance(other, FieldBEM):
+            return NotImplemented
+        
         return self.__class__(
-            self.electrostatic_point_charges.__add__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__add__(other.magnetostatic_point_charges),
-            self.current_point_charges.__add__(other.current_point_charges))
-     
+            self.electrostatic_point_charges + other.electrostatic_point_charges,
+            self.magnetostatic_point_charges + other.magnetostatic_point_charges,
+            self.current_point_charges + other.current_point_charges)
+    
     def __sub__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__sub__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__sub__(other.magnetostatic_point_charges),
-            self.current_point_charges.__sub__(other.current_point_charges))
+        return self.__add__(-other)
     
     def __radd__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__radd__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__radd__(other.magnetostatic_point_charges),
-            self.current_point_charges.__radd__(other.current_point_charges))
+        return self.__add__(other)
     
     def __mul__(self, other):
+        if not (isinstance(other, int) or isinstance(other, float)):
+            return NotImplemented
+        
         return self.__class__(
-            self.electrostatic_point_charges.__mul__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__mul__(other.magnetostatic_point_charges),
-            self.current_point_charges.__mul__(other.current_point_charges))
+            other*self.electrostatic_point_charges,
+            other*self.magnetostatic_point_charges,
+            other*self.current_point_charges)
+    
+    def __neg__(self):
+        return -1*self
     
-    def __neg__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__neg__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__neg__(other.magnetostatic_point_charges),
-            self.current_point_charges.__neg__(other.current_point_charges))
-     
     def __rmul__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__rmul__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__rmul__(other.magnetostatic_point_charges),
-            self.current_point_charges.__rmul__(other.current_point_charges))
+        return self.__mul__(other)
      
     def area_of_elements(self, indices):
         """Compute the total area of the elements at the given indices.
@@ -844,14 +838,18 @@ class Field3D_BEM(FieldBEM):
     """An electrostatic field resulting from a general 3D geometry. The field is a result of the surface charges as computed by the
     `solve_direct` function. See the comments in `FieldBEM`."""
      
-    def __init__(self, electrostatic_point_charges=None, magnetostatic_point_charges=None):
+    def __init__(self, electrostatic_point_charges=None, magnetostatic_point_charges=None, current_point_charges=None):
         
         if electrostatic_point_charges is None:
             electrostatic_point_charges = EffectivePointCharges.empty_3d()
         if magnetostatic_point_charges is None:
             magnetostatic_point_charges = EffectivePointCharges.empty_3d()
          
-        super().__init__(electrostatic_point_charges, magnetostatic_point_charges, EffectivePointCharges.empty_3d())
+        if current_point_charges is None:
+            current_point_charges = EffectivePointCharges.empty_3d()
+        
+        assert len(current_point_charges) == 0, "Currents are not supported in 3D"
+        super().__init__(electrostatic_point_charges, magnetostatic_point_charges, current_point_charges)
         
         self.symmetry = E.Symmetry.THREE_D
 
-- 
2.43.0


From ba21e29b512c0143cefaf2172f1fad967ec8e265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 15/50] fix: arithmetic on FieldRadialAxial

The operators passed the coefficients to a constructor which expects a field
and a range to interpolate, so +, - and * raised an exception.
---
 traceon/interpolation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/traceon/interpolation.py b/traceon/interpolation.py
index 05a264b..35098f6 100644
--- a/traceon/interpolation.py
+++ b/traceon/interpolation.py
@@ -1,3 +1,4 @@
+import copy
 import time
 from abc import ABC, abstractmethod
 
@@ -33,6 +34,12 @@ class FieldAxial(S.Field, ABC):
         self.has_electrostatic = np.any(self.electrostatic_coeffs != 0.)
         self.has_magnetostatic = np.any(self.magnetostatic_coeffs != 0.)
      
+    def _with_coefficients(self, electrostatic_coeffs, magnetostatic_coeffs):
+        # The constructor of a derived class computes the coefficients itself
+        field = copy.copy(self)
+        FieldAxial.__init__(field, self.z, electrostatic_coeffs, magnetostatic_coeffs)
+        return field
+    
     def is_electrostatic(self):
         return self.has_electrostatic
 
@@ -48,7 +55,7 @@ class FieldAxial(S.Field, ABC):
             assert np.array_equal(self.z, other.z), "Cannot add FieldAxial if optical axis sampling is different."
             assert self.electrostatic_coeffs.shape == other.electrostatic_coeffs.shape, "Cannot add FieldAxial if shape of axial coefficients is unequal."
             assert self.magnetostatic_coeffs.shape == other.magnetostatic_coeffs.shape, "Cannot add FieldAxial if shape of axial coefficients is unequal."
-            return self.__class__(self.z, self.electrostatic_coeffs+other.electrostatic_coeffs, self.magnetostatic_coeffs + other.magnetostatic_coeffs)
+            return self._with_coefficients(self.electrostatic_coeffs+other.electrostatic_coeffs, self.magnetostatic_coeffs + other.magnetostatic_coeffs)
          
         return NotImplemented
     
@@ -60,7 +67,7 @@ class FieldAxial(S.Field, ABC):
      
     def __mul__(self, other):
         if isinstance(other, int) or isinstance(other, float):
-            return self.__class__(self.z, other*self.electrostatic_coeffs, other*self.magnetostatic_coeffs)
+            return self._with_coefficients(other*self.electrostatic_coeffs, other*self.magnetostatic_coeffs)
          
         return NotImplemented
     
-- 
2.43.0


From d4b5c0484780c36a27780e3ded20c386fae78c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 16/50] fix: solving three dimensional geometries that lie in
 the XZ plane

The solver looked at the coordinates of the mesh instead of the requested
symmetry, so a flat electrode in the XZ plane with Symmetry.THREE_D was
treated as a radially symmetric geometry and raised an exception.
---
 traceon/solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index ae48fbc..9b088aa 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -116,10 +116,10 @@ class Solver(ABC):
         return self.excitation.mesh.is_higher_order()
         
     def is_3d(self):
-        return self.excitation.mesh.is_3d()
+        return self.excitation.symmetry.is_3d()
     
     def is_2d(self):
-        return self.excitation.mesh.is_2d()
+        return self.excitation.symmetry.is_2d()
 
     @abstractmethod
     def get_flux_indices(self):
@@ -412,7 +412,7 @@ def solve_direct_superposition(excitation):
         involved in using `superposition=True` since a direct solver is used which easily allows for multiple right hand sides (the
         matrix does not have to be inverted multiple times). However, voltage functions are invalid in the superposition process (position dependent voltages).
     """
-    if excitation.mesh.is_2d() and not excitation.mesh.is_higher_order():
+    if excitation.symmetry.is_2d() and not excitation.mesh.is_higher_order():
         excitation = _excitation_to_higher_order(excitation)
     
     # Speedup: invert matrix only once, when using superposition
@@ -447,7 +447,7 @@ def solve_direct(excitation):
     A `FieldRadialBEM` if the geometry (contained in the given `excitation`) is radially symmetric. If the geometry is a three
     dimensional geometry `Field3D_BEM` is returned. 
     """
-    if excitation.mesh.is_2d() and not excitation.mesh.is_higher_order():
+    if excitation.symmetry.is_2d() and not excitation.mesh.is_higher_order():
         excitation = _excitation_to_higher_order(excitation)
     
     mag, elec = excitation.is_magnetostatic(), excitation.is_electrostatic()
-- 
2.43.0


From efa58edb3b45c38bec62c801831856840c7315da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 17/50] fix: out of bounds read when evaluating an axial
 interpolation at its last sample

There are N_z-1 intervals, so at z equal to the last sample the index should be
clamped to N_z-2. The coefficients past the end of the array were used.
---
 traceon/backend/radial.c  | 8 ++++----
 traceon/backend/three_d.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/traceon/backend/radial.c b/traceon/backend/radial.c
index 2d09cbb..3c70671 100644
--- a/traceon/backend/radial.c
+++ b/traceon/backend/radial.c
@@ -324,9 +324,9 @@ potential_radial_derivs(double point[3], double *z_inter, double *coeff_p, size_
 	double dz = z_inter[1] - z_inter[0];
 	int index = (int) ( (z-z0)/dz );
 	
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1 (the number of intervals)
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, N_z-2);
 			
 	double diffz = z - z_inter[index];
 		
@@ -356,9 +356,9 @@ field_radial_derivs(double point[3], double field[3], double *z_inter, double *c
 	
 	double dz = z_inter[1] - z_inter[0];
 	int index = (int) ( (z-z0)/dz );
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1 (the number of intervals)
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, N_z-2);
 		
 	double diffz = z - z_inter[index];
 		
diff --git a/traceon/backend/three_d.c b/traceon/backend/three_d.c
index efba5a4..29c786d 100644
--- a/traceon/backend/three_d.c
+++ b/traceon/backend/three_d.c
@@ -208,9 +208,9 @@ potential_3d_derivs(double point[3], double *zs, double *coeffs_p, size_t N_z) {
 	
 	double dz = zs[1] - zs[0];
 	int index = (int) ((zp-zs[0])/dz);
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1 (the number of intervals)
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, N_z-2);
 		
 	
 	double z_ = zp - zs[index];
@@ -249,9 +249,9 @@ field_3d_derivs(double point[3], double field[3], double *restrict zs, double *r
 		
 	double dz = zs[1] - zs[0];
 	int index = (int) ((zp-zs[0])/dz);
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1 (the number of intervals)
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, N_z-2);
 		
 	double z_ = zp - zs[index];
 
-- 
2.43.0


From 2e8ac79bcccbc89a7bdcf7063d085c88276597ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 18/50] fix: backend.field_3d_derivs did not return the field

---
 traceon/backend/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 72323d0..4b2916e 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -487,6 +487,7 @@ def field_3d_derivs(point, z, coeffs):
 
     field = np.zeros( (3,) )
     backend_lib.field_3d_derivs(point.astype(np.float64), field, z, coeffs, len(z))
+    return field
 
 current_potential_axial_radial_ring = backend_lib.current_potential_axial_radial_ring
 
-- 
2.43.0


From 94400ae36fc44a129c36085aa26f9e2717410e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 19/50] fix: accept integer points when computing the field of
 currents

All other field and potential functions already convert the point.
---
 traceon/backend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 4b2916e..dcf01e1 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -516,7 +516,7 @@ def current_field(p0, currents, jac_buffer, pos_buffer):
     assert np.all(pos_buffer[:, :, 1] == 0.)
     
     result = np.zeros( (3,) )
-    backend_lib.current_field(p0, result, currents, jac_buffer, pos_buffer, N)
+    backend_lib.current_field(p0.astype(np.float64), result, currents, jac_buffer, pos_buffer, N)
     return result
 
 def current_axial_derivatives_radial(z, currents, jac_buffer, pos_buffer):
-- 
2.43.0


From c82f6bbc84902c171df4bdc97aaf247a825eedac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 20/50] fix: fill_matrix_radial refused to compute a single row

The range of rows includes end_index. When a thread was assigned a single row
the AssertionError was lost in the thread, and the row stayed zero.
---
 traceon/backend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index dcf01e1..7243024 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -578,7 +578,7 @@ def fill_matrix_radial(matrix, lines, excitation_types, excitation_values, jac_b
     assert excitation_values.shape == (N,)
     assert jac_buffer.shape == (N, N_QUAD_2D)
     assert pos_buffer.shape == (N, N_QUAD_2D, 2)
-    assert 0 <= start_index < N and 0 <= end_index < N and start_index < end_index
+    assert 0 <= start_index < N and 0 <= end_index < N and start_index <= end_index
      
     backend_lib.fill_matrix_radial(matrix, lines, excitation_types, excitation_values, jac_buffer, pos_buffer, N, matrix.shape[0], start_index, end_index)
 
-- 
2.43.0


From 675ee8bf18c46157d45932f2a318cadf87778504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 21/50] fix: do not start threads without any work in
 split_collect

With more threads than rows in the matrix the superfluous threads raised an
IndexError.
---
 traceon/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/util.py b/traceon/util.py
index cd695a8..ab865fc 100644
--- a/traceon/util.py
+++ b/traceon/util.py
@@ -59,7 +59,8 @@ def split_collect(f, array: np.ndarray) -> List[np.ndarray]:
         logging.log_debug(f'Running function \'{f.__name__}\' on a single thread since DEBUG=True')
         return [f(array)]
     
-    args = np.array_split(array, get_number_of_threads())
+    # Do not start threads without any work
+    args = np.array_split(array, max(min(get_number_of_threads(), len(array)), 1))
      
     results = [np.zeros(0)]*len(args)
     
-- 
2.43.0


From abb505ce65d1da3943a631b07038dcc00bd63e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 22/50] fix: exceptions in the threads of split_collect were
 lost

The computation went on with the part of the result of the failed thread
missing. Raise the exception in the calling thread.
---
 traceon/util.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/traceon/util.py b/traceon/util.py
index ab865fc..b402544 100644
--- a/traceon/util.py
+++ b/traceon/util.py
@@ -64,8 +64,13 @@ def split_collect(f, array: np.ndarray) -> List[np.ndarray]:
      
     results = [np.zeros(0)]*len(args)
     
+    errors: List[BaseException] = []
+    
     def set_result(index):
-        results[index] = f(args[index])
+        try:
+            results[index] = f(args[index])
+        except BaseException as error:
+            errors.append(error)
     
     threads = [Thread(target=set_result, args=(i,)) for i in range(len(args))]
      
@@ -73,7 +78,10 @@ def split_collect(f, array: np.ndarray) -> List[np.ndarray]:
         t.start()
     for t in threads:
         t.join()
-
+    
+    if errors:
+        raise errors[0]
+    
     return results
             
 
-- 
2.43.0


From b2421cc09f9e65c7d41da5920109da68da115534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 23/50] fix: field bounds given as integers

The array is passed to the backend as a pointer to doubles, so the bytes of
the integers were interpreted as floating point numbers.
---
 traceon/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index 9b088aa..2e8c403 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -564,7 +564,7 @@ class FieldBEM(Field, ABC):
         bounds: (3, 2) np.ndarray of float64
             The min, max value of x, y, z respectively within the field is still computed.
         """
-        self.field_bounds = np.array(bounds)
+        self.field_bounds = np.array(bounds, dtype=np.float64)
         assert self.field_bounds.shape == (3,2)
     
     def is_electrostatic(self):
-- 
2.43.0


From e5683b0bea78505d8788b4a990022345fa388086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 24/50] fix: the field bounds were ignored when tracing in a
 Field3D_BEM

---
 traceon/tracing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/traceon/tracing.py b/traceon/tracing.py
index a9f49c3..3e7eaa7 100644
--- a/traceon/tracing.py
+++ b/traceon/tracing.py
@@ -173,9 +173,8 @@ class TracerRadialAxial(Tracer):
 class Tracer3D_BEM(Tracer):
     def __call__(self, position, velocity, atol=1e-10):
         velocity = _convert_velocity_to_SI(velocity)
-        bounds = self.field.field_bounds
         elec, mag = self.field.electrostatic_point_charges, self.field.magnetostatic_point_charges
-        return backend.trace_particle_3d(position, velocity, self.bounds, atol, elec, mag)
+        return backend.trace_particle_3d(position, velocity, self.bounds, atol, elec, mag, field_bounds=self.field.field_bounds)
 
 class Tracer3DAxial(Tracer):
     def __call__(self, position, velocity, atol=1e-10):
-- 
2.43.0


From 8c07afde739c6eed0e5bfe353ae81199fabcb844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 25/50] fix: the z bounds of the field were ignored when
 tracing in a FieldRadialBEM

---
 traceon/backend/tracing.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/backend/tracing.c b/traceon/backend/tracing.c
index a18490c..ae5c404 100644
--- a/traceon/backend/tracing.c
+++ b/traceon/backend/tracing.c
@@ -123,7 +123,8 @@ field_radial_traceable(double point[6], double result[3], void *args_p) {
 	double (*bounds)[2] = (double (*)[2]) args->bounds;
 	
 	if(args->bounds == NULL || ((bounds[0][0] < point[0]) && (point[0] < bounds[0][1])
-						 && (bounds[1][0] < point[1]) && (point[1] < bounds[1][1]))) {
+						 && (bounds[1][0] < point[1]) && (point[1] < bounds[1][1])
+						 && (bounds[2][0] < point[2]) && (point[2] < bounds[2][1]))) {
 		
 		double elec_field[3] = {0.};
 		double mag_field[3] = {0.};
-- 
2.43.0


From dbbcb82f209a02d7b6d9e3c440565062676a67e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 26/50] fix: evaluate the field as zero outside of the field
 bounds

FieldBEM.set_bounds is documented to make the field zero outside the bounds,
but the functions returning the field at a point ignored the bounds.
---
 traceon/solver.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/traceon/solver.py b/traceon/solver.py
index 2e8c403..e184f61 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -567,6 +567,10 @@ class FieldBEM(Field, ABC):
         self.field_bounds = np.array(bounds, dtype=np.float64)
         assert self.field_bounds.shape == (3,2)
     
+    def _in_field_bounds(self, point):
+        return self.field_bounds is None or \
+            np.all( (self.field_bounds[:, 0] < point) & (point < self.field_bounds[:, 1]) )
+    
     def is_electrostatic(self):
         return len(self.electrostatic_point_charges) > 0
 
@@ -686,6 +690,9 @@ class FieldRadialBEM(FieldBEM):
         """
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        
+        if not self._in_field_bounds(point):
+            return np.zeros(3)
           
         charges = self.electrostatic_point_charges.charges
         jacobians = self.electrostatic_point_charges.jacobians
@@ -727,6 +734,9 @@ class FieldRadialBEM(FieldBEM):
         """
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        
+        if not self._in_field_bounds(point):
+            return np.zeros(3)
         current_field = self.current_field_at_point(point)
         
         charges = self.magnetostatic_point_charges.charges
@@ -874,6 +884,9 @@ class Field3D_BEM(FieldBEM):
         """
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        
+        if not self._in_field_bounds(point):
+            return np.zeros(3)
         charges = self.electrostatic_point_charges.charges
         jacobians = self.electrostatic_point_charges.jacobians
         positions = self.electrostatic_point_charges.positions
@@ -914,6 +927,9 @@ class Field3D_BEM(FieldBEM):
         """
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        
+        if not self._in_field_bounds(point):
+            return np.zeros(3)
         charges = self.magnetostatic_point_charges.charges
         jacobians = self.magnetostatic_point_charges.jacobians
         positions = self.magnetostatic_point_charges.positions
-- 
2.43.0


From 66da2b8d3af33a8ee39f50b5d1b7132bc0be8aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 27/50] fix: solve_direct_superposition with currents and
 magnetostatic potentials

- the magnetostatic field overwrote the electrostatic field for every name
  when the excitation has both
- every field contained all currents of the original excitation instead of
  a unit current in the given group only
- a fixed magnetostatic potential was present in all the fields, so taking
  the superposition counted it multiple times
- without a fixed voltage, a dielectric or magnetizable material made the
  solver fail on an empty right hand side
---
 traceon/excitation.py |  5 +++--
 traceon/solver.py     | 25 ++++++++++++++++---------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/traceon/excitation.py b/traceon/excitation.py
index d3c31d1..28c060c 100644
--- a/traceon/excitation.py
+++ b/traceon/excitation.py
@@ -233,7 +233,8 @@ class Excitation:
         # Names that have a fixed voltage excitation, not equal to 0.0
         types = self.excitation_types
         non_zero_fixed = [n for n, (t, v) in types.items() if t in [ExcitationType.VOLTAGE_FIXED,
-                                                                    ExcitationType.CURRENT] and v != 0.0]
+                                                                    ExcitationType.CURRENT,
+                                                                    ExcitationType.MAGNETOSTATIC_POT] and v != 0.0]
         
         excitations = []
          
@@ -248,7 +249,7 @@ class Excitation:
                     new_types_dict[n] = (t, 1.0)
                 elif t == ExcitationType.VOLTAGE_FIXED:
                     new_types_dict[n] = (t, 0.0)
-                elif t == ExcitationType.CURRENT:
+                elif t in [ExcitationType.CURRENT, ExcitationType.MAGNETOSTATIC_POT]:
                     new_types_dict[n] = (t, 0.0)
                 else:
                     new_types_dict[n] = (t, v)
diff --git a/traceon/solver.py b/traceon/solver.py
index e184f61..8085599 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -418,19 +418,26 @@ def solve_direct_superposition(excitation):
     # Speedup: invert matrix only once, when using superposition
     excitations = excitation._split_for_superposition()
     
+    is_elec = lambda name: excitation.excitation_types[name][0].is_electrostatic()
+    fields = {}
+    
     # Solve for elec fields
-    elec_names = [n for n, v in excitations.items() if v.is_electrostatic()]
-    right_hand_sides = np.array([ElectrostaticSolver(excitations[n]).get_right_hand_side() for n in elec_names])
-    solutions = ElectrostaticSolver(excitation).solve_matrix(right_hand_sides)
-    elec_dict = {n:s for n, s in zip(elec_names, solutions)}
+    elec_names = [n for n in excitations if is_elec(n)]
+    if len(elec_names):
+        right_hand_sides = np.array([ElectrostaticSolver(excitations[n]).get_right_hand_side() for n in elec_names])
+        solutions = ElectrostaticSolver(excitation).solve_matrix(right_hand_sides)
+        fields.update(zip(elec_names, solutions))
     
     # Solve for mag fields 
-    mag_names = [n for n, v in excitations.items() if v.is_magnetostatic()]
-    right_hand_sides = np.array([MagnetostaticSolver(excitations[n]).get_right_hand_side() for n in mag_names])
-    solutions = MagnetostaticSolver(excitation).solve_matrix(right_hand_sides)
-    mag_dict = {n:s for n, s in zip(mag_names, solutions)}
+    mag_names = [n for n in excitations if not is_elec(n)]
+    if len(mag_names):
+        solvers = [MagnetostaticSolver(excitations[n]) for n in mag_names]
+        right_hand_sides = np.array([s.get_right_hand_side() for s in solvers])
+        solutions = MagnetostaticSolver(excitation).solve_matrix(right_hand_sides)
+        # The field needs to include the unit current, and not the currents in the original excitation
+        fields.update({n:s.charges_to_field(f.magnetostatic_point_charges) for n, s, f in zip(mag_names, solvers, solutions)})
         
-    return {**elec_dict, **mag_dict}
+    return {n:fields[n] for n in excitations}
 
 def solve_direct(excitation):
     """
-- 
2.43.0


From 6b8cdccf47cd903e538ca4b696b558a88bdaa6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 28/50] fix: extract_physical_group dropped the triangles of a
 name given to lines and triangles

---
 traceon/mesher.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index ffc3685..e4833d3 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -317,28 +317,21 @@ class Mesh(Saveable, GeometricObject):
         Subset of the mesh consisting only of the elements with the given name."""
         assert name in self.physical_to_lines or name in self.physical_to_triangles, "Physical group not in mesh, so cannot extract"
 
-        if name in self.physical_to_lines:
-            elements = self.lines
-            physical = self.physical_to_lines
-        elif name in self.physical_to_triangles:
-            elements = self.triangles
-            physical = self.physical_to_triangles
+        lines = self.lines[np.unique(self.physical_to_lines.get(name, np.empty(0, dtype=np.int64)))]
+        triangles = self.triangles[np.unique(self.physical_to_triangles.get(name, np.empty(0, dtype=np.int64)))]
          
-        elements_indices = np.unique(physical[name])
-        elements = elements[elements_indices]
-          
         points_mask = np.full(len(self.points), False)
-        points_mask[elements] = True
+        points_mask[lines] = True
+        points_mask[triangles] = True
+        
         points = self.points[points_mask]
-          
         new_index = np.cumsum(points_mask) - 1
-        elements = new_index[elements]
-        physical_to_elements = {name:np.arange(len(elements))}
-         
-        if name in self.physical_to_lines:
-            return Mesh(points=points, lines=elements, physical_to_lines=physical_to_elements)
-        elif name in self.physical_to_triangles:
-            return Mesh(points=points, triangles=elements, physical_to_triangles=physical_to_elements)
+        
+        return Mesh(points=points,
+            lines=new_index[lines],
+            triangles=new_index[triangles],
+            physical_to_lines={name:np.arange(len(lines))} if name in self.physical_to_lines else {},
+            physical_to_triangles={name:np.arange(len(triangles))} if name in self.physical_to_triangles else {})
      
     @staticmethod
     def read_file(filename,  name=None):
-- 
2.43.0


From 04b45769456765c4f1a9184d782792dbcd3ec7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 29/50] fix: meshing a collection ignored
 ensure_outward_normals=False

The meshes of the individual paths and surfaces honoured it, but adding these
meshes together turned the normals outwards.
---
 traceon/geometry.py | 6 ++++--
 traceon/mesher.py   | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 2243d0d..0510f93 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -775,8 +775,9 @@ class PathCollection(GeometricObject):
         name = self.name if name is None else name
         
         for p in self.paths:
-            mesh = mesh + p.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor,
+            path_mesh = p.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor,
                                 higher_order=higher_order, name=name, ensure_outward_normals=ensure_outward_normals)
+            mesh = mesh._concatenate(path_mesh, ensure_outward_normals=ensure_outward_normals)
 
         return mesh
 
@@ -1351,7 +1352,8 @@ class SurfaceCollection(GeometricObject):
         name = self.name if name is None else name
         
         for s in self.surfaces:
-            mesh = mesh + s.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor, name=name, ensure_outward_normals=ensure_outward_normals)
+            surface_mesh = s.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor, name=name, ensure_outward_normals=ensure_outward_normals)
+            mesh = mesh._concatenate(surface_mesh, ensure_outward_normals=ensure_outward_normals)
          
         return mesh
      
diff --git a/traceon/mesher.py b/traceon/mesher.py
index e4833d3..7ee6de2 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -281,7 +281,10 @@ class Mesh(Saveable, GeometricObject):
         A new mesh consisting of the elements of the added meshes"""
         if not isinstance(other, Mesh):
             return NotImplemented
-         
+        
+        return self._concatenate(other)
+    
+    def _concatenate(self, other, ensure_outward_normals=True):
         N_points = len(self.points)
         N_lines = len(self.lines)
         N_triangles = len(self.triangles)
@@ -300,7 +303,8 @@ class Mesh(Saveable, GeometricObject):
                     lines=lines,
                     triangles=triangles,
                     physical_to_lines=physical_lines,
-                    physical_to_triangles=physical_triangles)
+                    physical_to_triangles=physical_triangles,
+                    ensure_outward_normals=ensure_outward_normals)
      
     def extract_physical_group(self, name):
         """Extract a named group from the mesh.
-- 
2.43.0


From de103fcd2aeb60c3a0165857b9081eae179a160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 30/50] fix: rounding errors made it impossible to evaluate the
 end of a joined path

---
 traceon/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 0510f93..0b481ac 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -224,7 +224,9 @@ class Path(GeometricObject):
         total = self.path_length + other.path_length
          
         def f(t):
-            assert 0 <= t <= total
+            # t might be slightly outside the path because of rounding errors
+            assert -1e-8*total <= t <= total*(1+1e-8)
+            t = min(max(t, 0.), total)
             
             if t <= self.path_length:
                 return self(t)
-- 
2.43.0


From a6cb34f0b7cf6e3029669d99305662378fd7fc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 31/50] fix: zero length elements for breakpoints that coincide
 up to rounding

---
 traceon/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 0b481ac..489cacf 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -46,7 +46,9 @@ def discretize_path(path_length, breakpoints, mesh_size, mesh_size_factor=None,
     subdivision = []
         
     for (u0, u1) in zip(points, points[1:]):
-        if u0 == u1:
+        # Skip empty stretches, note that breakpoints which should coincide
+        # might differ because of rounding errors.
+        if u1 - u0 <= 1e-10*path_length:
             continue
          
         if mesh_size is not None:
-- 
2.43.0


From ca67ff66e684fb5ef8f42eb17af7033c18bf4827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 32/50] fix: orientation of named higher order triangles

---
 traceon/mesher.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 7ee6de2..f441114 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -703,11 +703,21 @@ def _are_line_normals_pointing_outwards(lines, points):
 ## Code related to ensuring normals over a connected surface/path agree in orientation.
 ## These functios allow us to flip all normals 'inward' or all 'outward'
 
+def _flip_triangle(triangle):
+    if len(triangle) == 6: # Higher order triangle
+        p0, p1, p2, p3, p4, p5 = triangle
+        return [p0, p2, p1, p5, p4, p3]
+    else:
+        p0, p1, p2 = triangle
+        return [p0, p2, p1]
+
 def _reorient_triangles(triangles, points):
     if not len(triangles):
         return
      
-    vertex_to_triangles = _compute_vertex_to_indices(triangles)
+    # Only consider the corners, in the case of higher order triangles
+    corners = np.ascontiguousarray(triangles[:, :3])
+    vertex_to_triangles = _compute_vertex_to_indices(corners)
         
     oriented = np.full(len(triangles), False)
     active = [0]
@@ -715,13 +725,13 @@ def _reorient_triangles(triangles, points):
     assert triangles.dtype == np.uint64
     assert points.dtype == np.float64
      
-    triangles_ctypes = triangles.ctypes.data_as(C.c_void_p)
+    triangles_ctypes = corners.ctypes.data_as(C.c_void_p)
     points_ctypes = points.ctypes.data_as(C.c_void_p)
     
     while active:
         ti = active.pop()
 
-        for n in _get_element_neighbours(triangles[ti], vertex_to_triangles):
+        for n in _get_element_neighbours(corners[ti], vertex_to_triangles):
             assert 0 <= n < len(triangles)
             
             if oriented[n]:
@@ -732,8 +742,8 @@ def _reorient_triangles(triangles, points):
             if equal_orientation == -1: # Vertex neighbours, but not edge neighbours
                 continue
             elif equal_orientation == 0: # Not equal orientation
-                v0, v1, v2 = triangles[n]
-                triangles[n] = [v0, v2, v1] # Flip normal
+                triangles[n] = _flip_triangle(triangles[n]) # Flip normal
+                corners[n] = triangles[n, :3]
              
             oriented[n] = True
             active.append(n)
@@ -747,8 +757,7 @@ def _ensure_triangle_orientation(triangles, points, should_be_outwards):
     
     if outwards != should_be_outwards:
         for i in range(len(triangles)):
-            v0, v1, v2 = triangles[i]
-            triangles[i] = [v0, v2, v1]
+            triangles[i] = _flip_triangle(triangles[i])
 
 def _line_orientation_equal(index1, index2, lines):
     # Note that the orientation is equal if the lines do not
-- 
2.43.0


From dcd6b5cc50091dcc834feb18a3413d8ca3950a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 33/50] fix: cracks in surface meshes where a quad has several
 points on its edges

---
 traceon/mesher.py | 59 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index f441114..2d2b9a7 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -841,6 +841,14 @@ class PointsWithQuads:
         
         self.shape = indices.shape
     
+    def _points_on_edge(self, p, q):
+        # Points that are part of the mesh on the edge from p (inclusive) to q (exclusive)
+        N = max(abs(q[0] - p[0]), abs(q[1] - p[1]))
+        i = p[0] + np.arange(N)*(q[0] - p[0])//N
+        j = p[1] + np.arange(N)*(q[1] - p[1])//N
+        mask = self.indices[i, j] != -1
+        return list(zip(i[mask], j[mask]))
+    
     def to_triangles(self):
         triangles = []
 
@@ -856,30 +864,17 @@ class PointsWithQuads:
             p2 = (i1, j1)
             p3 = (i1, j0)
 
-            split_edge = False
+            # Neighbouring quads can be subdivided further, so there might
+            # be any number of points on the edges of the quad.
+            polygon = [p for a, b in [(p0, p1), (p1, p2), (p2, p3), (p3, p0)] for p in self._points_on_edge(a, b)]
             
-            # Check if there is a point on the edge 
-            for edge in range(4):
-                # Is there a point on the first edge?
-                point_on_edge = (p0[0]+p1[0])//2, (p0[1]+p1[1])//2
-                
-                if (abs(p0[0] - p1[0]) > 1 or abs(p0[1] - p1[1]) > 1) and \
-                        self.indices[point_on_edge[0], point_on_edge[1]] != -1:
-                    # Yes there is a point.. we have to split the
-                    # quad into three triangles
-                    add_triangle(p0, point_on_edge, p3)
-                    add_triangle(point_on_edge, p2, p3)
-                    add_triangle(point_on_edge, p1, p2)
-                    split_edge = True
-                    break
-                
-                # Rotate the points so we check the next edge
-                p0, p1, p2, p3 = p1, p2, p3, p0
-             
-            if not split_edge: 
+            if len(polygon) == 4:
                 add_triangle(p0, p1, p2)
                 add_triangle(p0, p2, p3)
-         
+            else:
+                for t in _triangulate_convex_polygon(polygon):
+                    add_triangle(*t)
+        
         assert not (-1 in np.array(triangles))
         return triangles
             
@@ -890,6 +885,28 @@ class PointsWithQuads:
         self.indices.__setitem__(*args, **kwargs)
 
 
+def _triangulate_convex_polygon(polygon):
+    # Triangulate a convex polygon given by its integer grid points. There can be points
+    # in the interior of an edge, but every resulting triangle has a non zero area.
+    def double_area(points):
+        return abs(sum(p[0]*q[1] - q[0]*p[1] for p, q in zip(points, points[1:] + points[:1])))
+    
+    triangles = []
+    polygon = [(int(i), int(j)) for i, j in polygon]
+    
+    while len(polygon) > 3:
+        N = len(polygon)
+        corners = [i for i in range(N) if double_area([polygon[i-1], polygon[i], polygon[(i+1) % N]]) != 0 \
+                                            and double_area(polygon[:i] + polygon[i+1:]) != 0]
+        
+        # Cut off the corner that leads to the shortest new edge
+        i = min(corners, key=lambda i: (polygon[i-1][0] - polygon[(i+1) % N][0])**2 + (polygon[i-1][1] - polygon[(i+1) % N][1])**2)
+        triangles.append((polygon[i-1], polygon[i], polygon[(i+1) % N]))
+        del polygon[i]
+    
+    triangles.append(tuple(polygon))
+    return triangles
+
 class PointStack:
     def __init__(self, surface, points=[]):
         self.path_length1 = surface.path_length1
-- 
2.43.0


From 31cd3c017f2ae380b58dd9d6e4c84d80012b38ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 34/50] fix: cracks in surface meshes when breakpoints coincide
 up to rounding errors

---
 traceon/geometry.py | 14 ++++++++++++--
 traceon/mesher.py   |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 489cacf..f1df47a 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -840,9 +840,19 @@ class Surface(GeometricObject):
         self.breakpoints2 = breakpoints2
         self.name = name
 
+    def _section_boundaries(self):
+        # Breakpoints that coincide (up to rounding errors) do not start a new section
+        def boundaries(length, breakpoints):
+            result = [0.]
+            for b in breakpoints:
+                if b - result[-1] > 1e-10*length and length - b > 1e-10*length:
+                    result.append(b)
+            return result + [length]
+        
+        return boundaries(self.path_length1, self.breakpoints1), boundaries(self.path_length2, self.breakpoints2)
+    
     def _sections(self): 
-        b1 = [0.] + self.breakpoints1 + [self.path_length1]
-        b2 = [0.] + self.breakpoints2 + [self.path_length2]
+        b1, b2 = self._section_boundaries()
 
         for u0, u1 in zip(b1[:-1], b1[1:]):
             for v0, v1 in zip(b2[:-1], b2[1:]):
diff --git a/traceon/mesher.py b/traceon/mesher.py
index 2d2b9a7..46fbe64 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -1072,7 +1072,7 @@ def _mesh(surface, mesh_size, start_depth=2, name=None, ensure_outward_normals=T
     point_with_quads = [p.normalize_to_depth(max_depth, q, start_depth) for p, q in zip(point_stacks, quads)]
     
     # Copy over the edges
-    Nx, Ny = len(surface.breakpoints1)+1, len(surface.breakpoints2)+1
+    Nx, Ny = [len(b) - 1 for b in surface._section_boundaries()]
     assert len(point_with_quads) == Nx*Ny
 
     for i in range(Nx-1):
-- 
2.43.0


From 26ee7250bdac326e84b9952a4141d69764c45cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 35/50] fix: normals of surfaces with faces that only have
 vertices in common

---
 traceon/mesher.py | 116 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 86 insertions(+), 30 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 46fbe64..67faee4 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -712,52 +712,108 @@ def _flip_triangle(triangle):
         return [p0, p2, p1]
 
 def _reorient_triangles(triangles, points):
-    if not len(triangles):
-        return
-     
+    # Make the orientation of triangles sharing an edge agree. Returns for
+    # each triangle the number of the patch (connected by edges) it belongs to.
+    
     # Only consider the corners, in the case of higher order triangles
     corners = np.ascontiguousarray(triangles[:, :3])
     vertex_to_triangles = _compute_vertex_to_indices(corners)
-        
-    oriented = np.full(len(triangles), False)
-    active = [0]
-
+    
     assert triangles.dtype == np.uint64
     assert points.dtype == np.float64
-     
+    
     triangles_ctypes = corners.ctypes.data_as(C.c_void_p)
     points_ctypes = points.ctypes.data_as(C.c_void_p)
     
-    while active:
-        ti = active.pop()
-
-        for n in _get_element_neighbours(corners[ti], vertex_to_triangles):
-            assert 0 <= n < len(triangles)
+    patches = np.full(len(triangles), -1)
+    
+    for start in range(len(triangles)):
+        if patches[start] != -1:
+            continue
+        
+        patches[start] = start
+        active = [start]
+        
+        while active:
+            ti = active.pop()
             
-            if oriented[n]:
-                continue
+            for n in _get_element_neighbours(corners[ti], vertex_to_triangles):
+                assert 0 <= n < len(triangles)
+                
+                if patches[n] != -1:
+                    continue
+                
+                equal_orientation = B.backend_lib.triangle_orientation_is_equal(ti, n, triangles_ctypes, points_ctypes)
+                
+                if equal_orientation == -1: # Vertex neighbours, but not edge neighbours
+                    continue
+                elif equal_orientation == 0: # Not equal orientation
+                    triangles[n] = _flip_triangle(triangles[n]) # Flip normal
+                    corners[n] = triangles[n, :3]
+                
+                patches[n] = start
+                active.append(n)
+    
+    return patches
 
-            equal_orientation = B.backend_lib.triangle_orientation_is_equal(ti, n, triangles_ctypes, points_ctypes)
-            
-            if equal_orientation == -1: # Vertex neighbours, but not edge neighbours
-                continue
-            elif equal_orientation == 0: # Not equal orientation
-                triangles[n] = _flip_triangle(triangles[n]) # Flip normal
-                corners[n] = triangles[n, :3]
-             
-            oriented[n] = True
-            active.append(n)
+def _reorient_patches(triangles, points, patches):
+    # Two faces of the same surface only have vertices in common when they are subdivided differently
+    # along their common border. The orientation of the faces agrees if they follow the common
+    # border in opposite directions. Returns the number of the surface each triangle belongs to.
+    edges = {(p, a, b) for (p0, p1, p2), p in zip(triangles[:, :3], patches) for a, b in [(p0, p1), (p1, p2), (p2, p0)]}
+    
+    # Per vertex the directions in which the borders leave (1.) and enter (-1.) it
+    borders: Dict[int, list] = {}
+    
+    for p, a, b in edges:
+        if (p, b, a) not in edges:
+            direction = (points[b] - points[a])/np.linalg.norm(points[b] - points[a])
+            borders.setdefault(a, []).append((p, 1., direction))
+            borders.setdefault(b, []).append((p, -1., -direction))
+    
+    agreement: Dict[tuple, float] = {}
+    
+    for border in borders.values():
+        for i, (p, sign_p, direction_p) in enumerate(border):
+            for q, sign_q, direction_q in border[i+1:]:
+                if p != q:
+                    key = (min(p, q), max(p, q))
+                    agreement[key] = agreement.get(key, 0.) - sign_p*sign_q*np.dot(direction_p, direction_q)
+    
+    surface, flip = {p:p for p in patches}, {p:False for p in patches}
+    
+    # Join the patches, starting with those that have most of their border in common
+    for (p, q), value in sorted(agreement.items(), key=lambda item: -abs(item[1])):
+        if surface[p] == surface[q]:
+            continue
+        
+        should_flip = (value < 0.) != (flip[p] != flip[q])
+        
+        for r in [r for r in surface if surface[r] == surface[q]]:
+            flip[r] = flip[r] != should_flip
+            surface[r] = surface[p]
+    
+    for i, p in enumerate(patches):
+        if flip[p]:
+            triangles[i] = _flip_triangle(triangles[i])
+    
+    return np.array([surface[p] for p in patches])
 
 def _ensure_triangle_orientation(triangles, points, should_be_outwards):
     # Ensure the triangles forming a closed surface have their
     # normals either outwards (should_be_outwards is True) or inwards (should_be_outwards is False)
-    _reorient_triangles(triangles, points)
+    surfaces = _reorient_triangles(triangles, points)
     
-    outwards = _are_triangle_normals_pointing_outwards(triangles, points)
+    if np.any(surfaces != surfaces[0]):
+        surfaces = _reorient_patches(triangles, points, surfaces)
     
-    if outwards != should_be_outwards:
-        for i in range(len(triangles)):
-            triangles[i] = _flip_triangle(triangles[i])
+    for s in np.unique(surfaces):
+        indices = np.where(surfaces == s)[0]
+        outwards = _are_triangle_normals_pointing_outwards(triangles[indices], points)
+        
+        if outwards != should_be_outwards:
+            for i in indices:
+                triangles[i] = _flip_triangle(triangles[i])
 
 def _line_orientation_equal(index1, index2, lines):
     # Note that the orientation is equal if the lines do not
-- 
2.43.0


From 85f781c2a1060ae476692a1b78714307506b87c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 36/50] fix: points that coincide up to rounding errors were
 not merged

---
 traceon/mesher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 67faee4..bcd3f9a 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -232,7 +232,10 @@ class Mesh(Saveable, GeometricObject):
         # Step 1: Make a copy of the points array using np.array
         points_copy = np.array(self.points, dtype=np.float64)
 
-        # Step 2: Zero the low 16 bits of the mantissa of the X, Y, Z coordinates
+        # Step 2: Zero the low 16 bits of the mantissa of the X, Y, Z coordinates (rounding to nearest) and
+        # coordinates that are zero up to rounding errors
+        points_copy[np.abs(points_copy) < 1e-12*np.max(np.abs(points_copy))] = 0.
+        points_copy.view(np.uint64)[:] += np.uint64(0x8000)
         points_copy.view(np.uint64)[:] &= np.uint64(0xFFFFFFFFFFFF0000)
 
         # Step 3: Use Numpy lexsort directly on points_copy
-- 
2.43.0


From 47fd3622cf64e429c5e2d345f45b43c108362e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:05 +0000
Subject: [PATCH 37/50] fix: all triangles of small meshes were removed as
 degenerate

---
 traceon/mesher.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index bcd3f9a..e859ce4 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -212,8 +212,13 @@ class Mesh(Saveable, GeometricObject):
         return Mesh(new_points, self.lines, self.triangles, self.physical_to_lines, self.physical_to_triangles)
     
     def _remove_degenerate_triangles(self):
-        areas = triangle_areas(self.points[self.triangles[:,:3]])
-        degenerate = areas < 1e-12
+        if not len(self.triangles):
+            return
+
+        # Compare with the size of the triangle, as the mesh might be drawn on any length scale
+        vertices = self.points[self.triangles[:,:3]]
+        longest_edge = np.max(np.linalg.norm(vertices - np.roll(vertices, 1, axis=1), axis=2), axis=1)
+        degenerate = triangle_areas(vertices) <= 1e-13*longest_edge*np.max(np.abs(self.points))
         map_index = np.arange(len(self.triangles)) - np.cumsum(degenerate)
          
         self.triangles = self.triangles[~degenerate]
-- 
2.43.0


From 1e8c8224ce9e3402eec962dd878e7833c5558490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 38/50] fix: normals of surfaces that touch another surface in
 a vertex

---
 traceon/mesher.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index e859ce4..9dec738 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -784,9 +784,12 @@ def _reorient_patches(triangles, points, patches):
     for border in borders.values():
         for i, (p, sign_p, direction_p) in enumerate(border):
             for q, sign_q, direction_q in border[i+1:]:
-                if p != q:
+                # Bodies can touch in a vertex as well, so only consider borders along the same line
+                similarity = np.dot(direction_p, direction_q)
+
+                if p != q and similarity > 0.5:
                     key = (min(p, q), max(p, q))
-                    agreement[key] = agreement.get(key, 0.) - sign_p*sign_q*np.dot(direction_p, direction_q)
+                    agreement[key] = agreement.get(key, 0.) - sign_p*sign_q*similarity
     
     surface, flip = {p:p for p in patches}, {p:False for p in patches}
     
-- 
2.43.0


From 152aba9503db6f40a1f5ab73341b56f12df5a06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:53 +0000
Subject: [PATCH 39/50] fix: Mesh.read could not read what Mesh.write writes

---
 traceon/mesher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 9dec738..8135cf4 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -381,7 +381,10 @@ class Mesh(Saveable, GeometricObject):
     
     def write(self, filename):
         self.write_file(filename)
-        
+    
+    @staticmethod
+    def read(filename):
+        return Mesh.read_file(filename)
      
     def to_meshio(self):
         """Convert the Mesh to a meshio object.
-- 
2.43.0


From ba295b630789a40be3c87e8dba2caa4a31e42799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:38 +0000
Subject: [PATCH 40/50] fix: default number of samples of an axial
 interpolation takes coils into account

---
 traceon/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/traceon/interpolation.py b/traceon/interpolation.py
index 35098f6..c1bddd8 100644
--- a/traceon/interpolation.py
+++ b/traceon/interpolation.py
@@ -122,8 +122,8 @@ class FieldRadialAxial(FieldAxial):
     def _get_interpolation_coefficients(field: S.FieldRadialBEM, zmin, zmax, N=None):
         assert zmax > zmin, "zmax should be bigger than zmin"
 
-        N_charges = max(len(field.electrostatic_point_charges.charges), len(field.magnetostatic_point_charges.charges))
-        N = N if N is not None else int(FACTOR_AXIAL_DERIV_SAMPLING_2D*N_charges)
+        N_charges = max(len(field.electrostatic_point_charges), len(field.magnetostatic_point_charges), len(field.current_point_charges))
+        N = N if N is not None else max(2, int(FACTOR_AXIAL_DERIV_SAMPLING_2D*N_charges))
         z = np.linspace(zmin, zmax, N)
         
         st = time.time()
-- 
2.43.0


From b19f39a670e40749532f40161985caff97f23d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:14 +0000
Subject: [PATCH 41/50] fix: field bounds given as a transposed array are used
 by the tracer as well

---
 traceon/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index 8085599..98356bd 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -571,7 +571,7 @@ class FieldBEM(Field, ABC):
         bounds: (3, 2) np.ndarray of float64
             The min, max value of x, y, z respectively within the field is still computed.
         """
-        self.field_bounds = np.array(bounds, dtype=np.float64)
+        self.field_bounds = np.array(bounds, dtype=np.float64, order='C')
         assert self.field_bounds.shape == (3,2)
     
     def _in_field_bounds(self, point):
-- 
2.43.0


From 6df201db80d6f0232f0f80a9aa8b4b31abdab848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:11 +0000
Subject: [PATCH 42/50] fix: no error was raised when a trajectory does not
 cross the plane

---
 traceon/backend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 7243024..ae029a8 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -188,7 +188,7 @@ backend_functions = {
     'fill_matrix_radial': (None, arr(ndim=2), lines, arr(dtype=np.uint8, ndim=1), arr(ndim=1), jac_buffer_2d, pos_buffer_2d, sz, sz, C.c_int, C.c_int),
     'fill_jacobian_buffer_3d': (None, jac_buffer_3d, pos_buffer_3d, vertices, sz),
     'fill_matrix_3d': (None, arr(ndim=2), vertices, arr(dtype=np.uint8, ndim=1), arr(ndim=1), jac_buffer_3d, pos_buffer_3d, sz, sz, C.c_int, C.c_int),
-    'plane_intersection': (bool, v3, v3, arr(ndim=2), sz, arr(shape=(6,))),
+    'plane_intersection': (C.c_bool, v3, v3, arr(ndim=2), sz, arr(shape=(6,))),
     'triangle_areas': (None, vertices, arr(ndim=1), sz)
 }
 
-- 
2.43.0


From d3393823f1424b0c59280488786120b9d8b41cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:30 +0000
Subject: [PATCH 43/50] fix: colours with long names are not cut off in plots
 of triangles

The array of colours had room for seven characters, so 'lightblue' became
'lightbl', which is not a colour.
---
 traceon/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/plotting.py b/traceon/plotting.py
index 3bf7ec6..961659e 100644
--- a/traceon/plotting.py
+++ b/traceon/plotting.py
@@ -263,7 +263,7 @@ def _get_vedo_triangles_and_normals(mesh, **phys_colors):
     triangles = mesh.triangles[:, :3]
     normals = np.array([backend.normal_3d(mesh.points[t]) for t in triangles])
     
-    colors = np.full(len(triangles), '#CCCCCC')
+    colors = np.full(len(triangles), '#CCCCCC', dtype=object)
     dict_ = _create_point_to_physical_dict(mesh)
     
     for i, (A, B, C) in enumerate(triangles):
-- 
2.43.0


From cbbecff07d84ff647ad10d2bc0613153f9d4e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:30 +0000
Subject: [PATCH 44/50] fix: default colour of lines in plots is valid

---
 traceon/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/plotting.py b/traceon/plotting.py
index 961659e..49961e2 100644
--- a/traceon/plotting.py
+++ b/traceon/plotting.py
@@ -359,7 +359,7 @@ def _get_vedo_lines_and_normals(mesh, **phys_colors):
     points = mesh.points 
      
     for i, (A, B) in enumerate(lines):
-            color = '#CCCCC'
+            color = '#CCCCCC'
             
             if A in dict_ and B in dict_:
                 phys1, phys2 = dict_[A], dict_[B]
-- 
2.43.0


From 21dda5e10a5d8587dd03147f5a93cd5ee5d57768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:30 +0000
Subject: [PATCH 45/50] fix: elements are plotted in the colour of their own
 group

The colour was decided by the groups of the vertices. Elements which touch
another group were not coloured, and elements without a group were coloured
when all of their vertices belong to a group.
---
 traceon/plotting.py | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/traceon/plotting.py b/traceon/plotting.py
index 49961e2..bc50115 100644
--- a/traceon/plotting.py
+++ b/traceon/plotting.py
@@ -249,28 +249,15 @@ def _get_vedo_grid(field, surface, N0, N1):
 
     return grid
     
-def _create_point_to_physical_dict(mesh):
-    d = {}
-    
-    for physical, elements in [(mesh.physical_to_lines, mesh.lines), (mesh.physical_to_triangles, mesh.triangles)]:
-        for k, v in physical.items():
-            for element_index in v:
-                for p in elements[element_index]:
-                    d[p] = k
-    return d
-
 def _get_vedo_triangles_and_normals(mesh, **phys_colors):
     triangles = mesh.triangles[:, :3]
     normals = np.array([backend.normal_3d(mesh.points[t]) for t in triangles])
     
     colors = np.full(len(triangles), '#CCCCCC', dtype=object)
-    dict_ = _create_point_to_physical_dict(mesh)
     
-    for i, (A, B, C) in enumerate(triangles):
-        if A in dict_ and B in dict_ and C in dict_:
-            phys1, phys2, phys3 = dict_[A], dict_[B], dict_[C]
-            if phys1 == phys2 and phys2 == phys3 and phys1 in phys_colors:
-                colors[i] = phys_colors[phys1]
+    for name, indices in mesh.physical_to_triangles.items():
+        if name in phys_colors:
+            colors[indices] = phys_colors[name]
      
     meshes = []
     
@@ -353,23 +340,18 @@ def _get_vedo_lines_and_normals(mesh, **phys_colors):
     lines = mesh.lines[:, :2]
     start = np.zeros( (len(lines), 3) )
     end = np.zeros( (len(lines), 3) )
-    colors_ = np.zeros(len(lines), dtype=object) 
+    colors_ = np.full(len(lines), '#CCCCCC', dtype=object) 
     normals = []
-    dict_ = _create_point_to_physical_dict(mesh)
     points = mesh.points 
+    
+    for name, indices in mesh.physical_to_lines.items():
+        if name in phys_colors:
+            colors_[indices] = phys_colors[name]
      
     for i, (A, B) in enumerate(lines):
-            color = '#CCCCCC'
-            
-            if A in dict_ and B in dict_:
-                phys1, phys2 = dict_[A], dict_[B]
-                if phys1 == phys2 and phys1 in phys_colors:
-                    color = phys_colors[phys1]
-            
             p1, p2 = points[A], points[B]
             start[i] = p1
             end[i] = p2
-            colors_[i] = color
 
             normal = backend.normal_2d(np.array([p1[0], p1[2]]), np.array([p2[0], p2[2]])) 
             normals.append(np.array([normal[0], 0.0, normal[1]]))
-- 
2.43.0


From 41f271debc1c4d6c043eb628ff6a5a7c03b4d7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:30 +0000
Subject: [PATCH 46/50] fix: plot the charge density of geometries with both
 lines and triangles

Whether the charges are on the lines or on the triangles depends on the
symmetry of the excitation, not on the elements present in the mesh.
---
 traceon/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/traceon/plotting.py b/traceon/plotting.py
index bc50115..49dc97d 100644
--- a/traceon/plotting.py
+++ b/traceon/plotting.py
@@ -17,6 +17,7 @@ import vedo.shapes
 import vedo.colors
 
 from . import backend
+from . import excitation as E
 
 _current_figures = []
 
@@ -155,11 +156,10 @@ class Figure:
         if not len(mesh.triangles) and not len(mesh.lines):
             raise RuntimeError("Trying to plot empty mesh.")
         
-        if len(mesh.triangles):
+        if excitation.symmetry == E.Symmetry.THREE_D:
             meshes = _get_vedo_charge_density_3d(excitation, field, color_map)
             self.to_plot.append(meshes)
-            
-        if len(mesh.lines):
+        else:
             lines = _get_vedo_charge_density_2d(excitation, field, color_map)
             self.to_plot.append(lines)
          
-- 
2.43.0


From adbd2935808b9420268355a769189292175abaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:14 +0000
Subject: [PATCH 47/50] fix: influence of nearby triangles did not scale with
 the geometry

The integrals over nearby triangles compared squared distances and the
potential with absolute thresholds.  In geometries of less than a
millimeter (in meters) the field was replaced by an expansion that does
not hold there: with dielectrics the solution was wrong or not finite.
The expansion also had the wrong sign beyond the triangle.
---
 traceon/backend/triangle.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/traceon/backend/triangle.c b/traceon/backend/triangle.c
index f24dfd3..0c1a934 100644
--- a/traceon/backend/triangle.c
+++ b/traceon/backend/triangle.c
@@ -38,11 +38,12 @@ double _potential_integrand(double y, void *args_p) {
 		
 	double denom = sqrt((y+args.y0)*(y+args.y0) + args.z*args.z);
 
-	if(denom < 1e-12) {
+	if(denom < 1e-12*args.a) {
 		// The asinh(xmax/denom) - asinh(xmin/denom) is numerical 
 		// unstable when denom is small. Taking the taylor expansion
 		// of denom -> 0 we find
-		return log(fabs(xmax)) - log(fabs(xmin));
+		double diff = log(fabs(xmax)) - log(fabs(xmin));
+		return xmax < 0 ? -diff : diff;
 	}
     return asinh(xmax/denom) - asinh(xmin/denom);
 }
@@ -73,7 +74,7 @@ potential_triangle(double v0[3], double v1[3], double v2[3], double target[3]) {
 	
 	struct _normalized_triangle tri = {x0, y0, a,b,c,z};
 
-	return kronrod_adaptive(_potential_integrand, 0, c, (void*) &tri, 1e-9, 1e-9);
+	return kronrod_adaptive(_potential_integrand, 0, c, (void*) &tri, 1e-9*a, 1e-9);
 }
 
 EXPORT double self_potential_triangle_v0(double v0[3], double v1[3], double v2[3]) {
@@ -130,10 +131,15 @@ double _flux_integrand(double y, void *args_p) {
 
 	flux[0] = 1 / sqrt(r2 + xmax2) - 1 / sqrt(r2 + xmin2);
 
-	// Singularity when r2 is small...
-	if (fabs(r2) < 1e-9) {
-		flux[1] = ((xmin2 - xmax2) * y0 + (xmin2 - xmax2) * y) / (2.0 * xmax2 * xmin2);
-		flux[2] = -((xmin2 - xmax2) * z) / (2.0 * xmax2 * xmin2);
+	// Singularity when r2 is small compared to the distance to the endpoints
+	if (xmin*xmax > 0 && r2 < 1e-9 * fmin(xmin2, xmax2)) {
+		double sign = xmax < 0 ? -1.0 : 1.0;
+		flux[1] = sign * ((xmin2 - xmax2) * y0 + (xmin2 - xmax2) * y) / (2.0 * xmax2 * xmin2);
+		flux[2] = -sign * ((xmin2 - xmax2) * z) / (2.0 * xmax2 * xmin2);
+	} else if (r2 == 0.0) {
+		// Target inside the triangle, opposite sides cancel
+		flux[1] = 0.0;
+		flux[2] = 0.0;
 	} else {
 		double denom_max = r2 * sqrt(r2 + xmax2);
 		double denom_min = r2 * sqrt(r2 + xmin2);
-- 
2.43.0


From 6a6ff39bf8b9c3f26a0c7dc3e7c5986074cca5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:46 +0000
Subject: [PATCH 48/50] fix: self potential of radial elements was inaccurate
 in small geometries

---
 traceon/backend/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index ae029a8..1533bf1 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -549,7 +549,9 @@ def self_potential_radial(vertices):
     assert vertices.shape == (4,3) and vertices.dtype == np.double
     user_data = vertices.ctypes.data_as(C.c_void_p)
     low_level = LowLevelCallable(backend_lib.self_potential_radial, user_data=user_data)
-    return quad(low_level, -1, 1, points=(0,), epsabs=1e-9, epsrel=1e-9, limit=250)[0]
+    # The potential is proportional to the size of the element
+    size = np.linalg.norm(vertices[1] - vertices[0])
+    return quad(low_level, -1, 1, points=(0,), epsabs=1e-9*size, epsrel=1e-9, limit=250)[0]
 
 class SelfFieldDotNormalRadialArgs(C.Structure):
     _fields_ = [("line_points", C.POINTER(C.c_double)), ("K", C.c_double)]
-- 
2.43.0


From d95e9c239417aba21bbba8e8eca656bd96c5b26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:45 +0000
Subject: [PATCH 49/50] fix: breakpoints of paths from irregular functions were
 in the wrong place

---
 traceon/geometry.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index f1df47a..e6fd0ab 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -104,16 +104,30 @@ class Path(GeometricObject):
         # path length = integrate |f'(x)|
         fun = lambda u: np.array(to_point(u))
         
-        u = np.linspace(0, 1, N)
-        samples = CubicSpline(u, [fun(u_) for u_ in u])
-        derivatives = samples.derivative()(u)
-        norm_derivatives = np.linalg.norm(derivatives, axis=1)
-        path_lengths = CubicSpline(u, norm_derivatives).antiderivative()(u)
-        interpolation = CubicSpline(path_lengths, u) # Path length to [0,1]
-
-        path_length = path_lengths[-1]
-        
-        return Path(lambda pl: fun(interpolation(pl)), path_length, breakpoints=[b*path_length for b in breakpoints])
+        # The function is only differentiable in between breakpoints
+        sections = [0.]
+        for b in sorted(breakpoints):
+            if sections[-1] + 1e-10 < b < 1. - 1e-10:
+                sections.append(b)
+        sections.append(1.)
+        
+        starts = [0.] # Path length at the start of each section
+        interpolations = [] # Path length to [0,1]
+         
+        for u0, u1 in zip(sections, sections[1:]):
+            u = np.linspace(u0, u1, N)
+            samples = CubicSpline(u, [fun(u_) for u_ in u])
+            derivatives = samples.derivative()(u)
+            norm_derivatives = np.linalg.norm(derivatives, axis=1)
+            path_lengths = starts[-1] + CubicSpline(u, norm_derivatives).antiderivative()(u)
+            interpolations.append(CubicSpline(path_lengths, u))
+            starts.append(float(path_lengths[-1]))
+        
+        def path(pl):
+            index = np.searchsorted(starts[1:-1], pl, side='right')
+            return fun(interpolations[index](pl))
+         
+        return Path(path, starts[-1], breakpoints=starts[1:-1])
     
     @staticmethod
     def spline_through_points(points, N=100):
-- 
2.43.0


From d1daa762c5cd9745c288b925795c2e88121f07a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:45 +0000
Subject: [PATCH 50/50] fix: influence of nearby elongated triangles depended
 on the order of their vertices

---
 traceon/backend/tracing.c      | 4 ++--
 traceon/backend/utilities_3d.c | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/traceon/backend/tracing.c b/traceon/backend/tracing.c
index ae5c404..0aac307 100644
--- a/traceon/backend/tracing.c
+++ b/traceon/backend/tracing.c
@@ -306,7 +306,7 @@ EXPORT void fill_matrix_3d(double *restrict matrix,
 				// Position of first integration point. Check if 
 				// close to the target triangle.
 				double distance = distance_3d(triangle_points[j][0], target);
-				double characteristic_length = distance_3d(triangle_points[j][0], triangle_points[j][1]);
+				double characteristic_length = longest_edge_3d(triangle_points[j]);
 				
 				if(i == j) {
 					matrix[i*N_matrix + j] = self_potential_triangle(&triangle_points[j][0][0], &triangle_points[j][1][0], &triangle_points[j][2][0], target);
@@ -340,7 +340,7 @@ EXPORT void fill_matrix_3d(double *restrict matrix,
 			for (int j = 0; j < N_lines; j++) {  
 					
 				double distance = distance_3d(triangle_points[j][0], target);
-				double characteristic_length = distance_3d(triangle_points[j][0], triangle_points[j][1]);
+				double characteristic_length = longest_edge_3d(triangle_points[j]);
 
 				if(i == j) {
 					matrix[i*N_matrix + j] = -1.0;
diff --git a/traceon/backend/utilities_3d.c b/traceon/backend/utilities_3d.c
index 2850213..4d4aa0e 100644
--- a/traceon/backend/utilities_3d.c
+++ b/traceon/backend/utilities_3d.c
@@ -101,6 +101,11 @@ triangle_area(double v0[3], double v1[3], double v2[3]) {
 	return norm_3d(out[0], out[1], out[2])/2.0;
 }
 
+double
+longest_edge_3d(triangle t) {
+	return fmax(distance_3d(t[0], t[1]), fmax(distance_3d(t[1], t[2]), distance_3d(t[2], t[0])));
+}
+
 EXPORT void
 normal_3d(triangle t, double *normal) {
 	double x1 = t[0][0], y1 = t[0][1], z1 = t[0][2];
-- 
2.43.0

