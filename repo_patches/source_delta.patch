From 5e298fcb52c4c2aed574d31319303ff8743ad401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 01/26] fix: declare the value shape of divergence moments

The functionals act on vector and tensor fields, but announced scalar
targets, so a dual set starting with one of them (e.g. the interior
restriction of Mardal-Tai-Winther) could not be built.
---
 FIAT/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index 44711ca..7f61027 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -453,7 +453,7 @@ class IntegralMomentOfDivergence(Functional):
         for j, pt in enumerate(dpts):
             dpt_dict[tuple(pt)] = [(qwts[j]*f_at_qpts[j], alphas[i], (i,)) for i in range(sd)]
 
-        super().__init__(ref_el, tuple(), {}, dpt_dict,
+        super().__init__(ref_el, (sd,), {}, dpt_dict,
                          "IntegralMomentOfDivergence")
 
 
@@ -480,7 +480,7 @@ class IntegralMomentOfTensorDivergence(Functional):
         for q, pt in enumerate(dpts):
             dpt_dict[tuple(pt)] = [(qwts[q]*f_at_qpts[i, q], alphas[j], (i, j)) for i in range(2) for j in range(2)]
 
-        super().__init__(ref_el, tuple(), {}, dpt_dict,
+        super().__init__(ref_el, (sd, sd), {}, dpt_dict,
                          "IntegralMomentOfDivergence")
 
 
-- 
2.43.0


From bc79e1f4b04dbb48949d99c355ed78facae4c720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 02/26] fix: weight second normal derivatives by n_i n_j

PointNormalSecondDerivative combined the second derivatives with the
components of the normal and left some of them out.
---
 FIAT/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index 7f61027..54ec91d 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -268,12 +268,12 @@ class PointNormalSecondDerivative(Functional):
                 alpha[i] += 1
                 alpha[j] += 1
                 alphas.append(tuple(alpha))
-                tau[cur] = n[i]*n[j]
+                tau[cur] = n[i]*n[j] if i == j else 2*n[i]*n[j]
                 cur += 1
 
         self.tau = tau
         self.alphas = alphas
-        dpt_dict = {pt: [(n[i], alphas[i], tuple()) for i in range(sd)]}
+        dpt_dict = {pt: [(tau[i], alphas[i], tuple()) for i in range(len(alphas))]}
 
         Functional.__init__(self, ref_el, tuple(), {}, dpt_dict, "PointNormalDeriv")
 
-- 
2.43.0


From 72ef8beb8a228bdcb7f010680e40678d6db8ed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 03/26] fix: make the normal-normal moment act on tensors

IntegralMomentOfNormalNormalEvaluation computed the moment of the normal
component of a vector field.
---
 FIAT/functional.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index 54ec91d..930b255 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -791,5 +791,6 @@ class IntegralMomentOfNormalNormalEvaluation(Functional):
         weights = Q.get_weights()
         pt_dict = OrderedDict()
         for pt, wgt, phi in zip(pts, weights, P_at_qpts):
-            pt_dict[pt] = [(wgt*phi*n[i], (i, )) for i in range(sd)]
-        super().__init__(ref_el, (sd, ), pt_dict, {}, "IntegralMomentOfScaledNormalEvaluation")
+            pt_dict[pt] = [(wgt*phi*n[i]*n[j], (i, j))
+                           for i, j in index_iterator((sd, sd))]
+        super().__init__(ref_el, (sd, sd), pt_dict, {}, "IntegralMomentOfScaledNormalEvaluation")
-- 
2.43.0


From 7aab980526c72f8156ce993ff5576bc324d7f60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 04/26] fix: make
 TensorBidirectionalMomentInnerProductEvaluation constructible

Its constructor raised a TypeError for every input.
---
 FIAT/functional.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index 930b255..4ce799a 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -715,11 +715,11 @@ class TensorBidirectionalMomentInnerProductEvaluation(Functional):
         qpts, qwts = Q.get_points(), Q.get_weights()
 
         pt_dict = {}
-        for k, pt in enumerate(map(tuple(qpts))):
+        for k, pt in enumerate(map(tuple, qpts)):
             pt_dict[pt] = []
             for i, j in index_iterator((sd, sd)):
-                pt_dict[pt].append((qwts[k] * wvT[i][j] * f_at_qpts[i, j, k]),
-                                   (i, j))
+                pt_dict[pt].append((qwts[k] * wvT[i][j] * f_at_qpts[k],
+                                    (i, j)))
 
         shp = (sd, sd)
         super().__init__(ref_el, shp, pt_dict, {}, "TensorBidirectionalMomentInnerProductEvaluation")
-- 
2.43.0


From ab72a3c10d897fe7281fdab0efaec2a504ca3be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 05/26] fix: compute entity support dofs of tensor-valued
 elements

Only one value index was summed over, so Regge, HHJ and Arnold-Winther
elements raised a ValueError.
---
 FIAT/finite_element.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FIAT/finite_element.py b/FIAT/finite_element.py
index f7d1b02..c3f794d 100644
--- a/FIAT/finite_element.py
+++ b/FIAT/finite_element.py
@@ -233,8 +233,9 @@ def entity_support_dofs(elem, entity_dim):
         # Ints contains the square of the basis functions
         # integrated over the facet.
         if elem.value_shape():
-            # Vector-valued functions.
-            ints = numpy.dot(numpy.einsum("...ij,...ij->...j", vals, vals), weights)
+            # Vector- or tensor-valued functions.
+            components = tuple(range(1, vals.ndim - 1))
+            ints = numpy.dot(numpy.sum(vals**2, axis=components), weights)
         else:
             ints = numpy.dot(vals**2, weights)
 
-- 
2.43.0


From 7a1eb7043a8706fc98ab4f873e0b550a47f1c260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 06/26] fix: tabulate enriched elements of any value shape

Tensor-valued parts, and vector-valued parts with one component, failed
to broadcast into the table.
---
 FIAT/enriched.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/FIAT/enriched.py b/FIAT/enriched.py
index 97ac5c5..9e93073 100644
--- a/FIAT/enriched.py
+++ b/FIAT/enriched.py
@@ -89,8 +89,7 @@ class EnrichedElement(FiniteElement):
         """Return tabulated values of derivatives up to given order of
         basis functions at given points."""
 
-        num_components = numpy.prod(self.value_shape())
-        table_shape = (self.space_dimension(), num_components, len(points))
+        table_shape = (self.space_dimension(),) + self.value_shape() + (len(points),)
 
         table = {}
         irange = slice(0)
@@ -103,12 +102,8 @@ class EnrichedElement(FiniteElement):
             for dtuple in etable.keys():
 
                 if dtuple not in table:
-                    if num_components == 1:
-                        table[dtuple] = numpy.zeros((self.space_dimension(), len(points)),
-                                                    dtype=etable[dtuple].dtype)
-                    else:
-                        table[dtuple] = numpy.zeros(table_shape,
-                                                    dtype=etable[dtuple].dtype)
+                    table[dtuple] = numpy.zeros(table_shape,
+                                                dtype=etable[dtuple].dtype)
 
                 table[dtuple][irange][:] = etable[dtuple]
 
-- 
2.43.0


From cb7834a14bc62657089a58700baf91f793aa9180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 07/26] fix: pass the degree on in
 DiscontinuousElement.get_num_members

---
 FIAT/discontinuous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/discontinuous.py b/FIAT/discontinuous.py
index fbb4d2b..e37547a 100644
--- a/FIAT/discontinuous.py
+++ b/FIAT/discontinuous.py
@@ -79,4 +79,4 @@ class DiscontinuousElement(CiarletElement):
 
     def get_num_members(self, arg):
         "Return number of members of the expansion set."
-        return self._element.get_num_members()
+        return self._element.get_num_members(arg)
-- 
2.43.0


From 1dcecc8bc1d679aab456967e0ef1c1f9cb6770da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 08/26] fix: give the padding component of product moments as a
 tuple

The components in a point dictionary are tuples; a bare integer broke
users of the functionals of e.g. BDM2 x CG1.
---
 FIAT/tensor_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/tensor_product.py b/FIAT/tensor_product.py
index 90c59c9..76dc34e 100644
--- a/FIAT/tensor_product.py
+++ b/FIAT/tensor_product.py
@@ -175,7 +175,7 @@ class TensorProductElement(FiniteElement):
                         pt_dict = {}
                         pt_old = Anode.get_point_dict()
                         for pt in pt_old:
-                            pt_dict[pt+_first_point(Bnode)] = pt_old[pt] + [(0.0, sd-1)]
+                            pt_dict[pt+_first_point(Bnode)] = pt_old[pt] + [(0.0, (sd-1,))]
                         # THE FOLLOWING IS PROBABLY CORRECT BUT UNTESTED
                         shp = (sd,)
                         nodes.append(functional.Functional(ref_el, shp, pt_dict, {}, "FrobeniusIntegralMoment"))
-- 
2.43.0


From 7fd15447996598ce545eba03f2209d73fea26eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 09/26] fix: transform entities of nested tensor product cells

The dimensions of a product of products are nested tuples, which cannot
be used as coordinate counts directly.
---
 FIAT/reference_element.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FIAT/reference_element.py b/FIAT/reference_element.py
index 662a668..0a13eba 100644
--- a/FIAT/reference_element.py
+++ b/FIAT/reference_element.py
@@ -733,7 +733,8 @@ class TensorProductCell(Cell):
         sct = [c.get_entity_transform(d, i)
                for c, d, i in zip(self.cells, dim, alpha)]
 
-        slices = TensorProductCell._split_slices(dim)
+        slices = TensorProductCell._split_slices(
+            [c.get_spatial_dimension() for c in self.construct_subelement(dim).cells])
 
         def transform(point):
             return list(chain(*[t(point[s])
-- 
2.43.0


From 55d697bb983c2c7c097425b95b67dcc6189667e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 10/26] fix: refuse Bernstein elements on cells that are no
 simplex

On a quadrilateral the constructor silently built a set of three
functions that spans no Bernstein space.
---
 FIAT/bernstein.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FIAT/bernstein.py b/FIAT/bernstein.py
index 7fe6cfd..7e2daf3 100644
--- a/FIAT/bernstein.py
+++ b/FIAT/bernstein.py
@@ -12,6 +12,7 @@ import numpy
 from FIAT.finite_element import FiniteElement
 from FIAT.dual_set import DualSet
 from FIAT.polynomial_set import mis
+from FIAT.reference_element import Simplex
 
 
 class BernsteinDualSet(DualSet):
@@ -50,6 +51,8 @@ class Bernstein(FiniteElement):
     """A finite element with Bernstein polynomials as basis functions."""
 
     def __init__(self, ref_el, degree):
+        if not isinstance(ref_el, Simplex):
+            raise ValueError("Bernstein elements are only defined on simplices.")
         dual = BernsteinDualSet(ref_el, degree)
         k = 0  # 0-form
         super(Bernstein, self).__init__(ref_el, dual, degree, k)
-- 
2.43.0


From 45c30ec73e7fe7f9b989a27659c42aaacf369fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 11/26] fix: keep the nodes of DPC elements inside the
 hexahedron

---
 FIAT/discontinuous_pc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/discontinuous_pc.py b/FIAT/discontinuous_pc.py
index 0714d89..ce997ef 100644
--- a/FIAT/discontinuous_pc.py
+++ b/FIAT/discontinuous_pc.py
@@ -63,7 +63,7 @@ class DPCDualSet(dual_set.DualSet):
         # with no other points.
         for d in range(1, flat_el.get_dimension()):
             v_.append(tuple(np.asarray(v_hypercube[flat_el.get_dimension() - d] +
-                            np.average(np.asarray(v_hypercube[::2]), axis=0))))
+                            np.average(np.asarray(v_hypercube[::2**(flat_el.get_dimension() - d)]), axis=0))))
         A, b = make_affine_mapping(v_simplex, tuple(v_))  # Make affine mapping to be used later.
 
         # make nodes by getting points
-- 
2.43.0


From 37d279271f383257df52b92082453f93ceb63cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 12/26] fix: scale the highest derivatives of Bernstein
 polynomials

---
 FIAT/bernstein.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/bernstein.py b/FIAT/bernstein.py
index 7e2daf3..b727dd6 100644
--- a/FIAT/bernstein.py
+++ b/FIAT/bernstein.py
@@ -138,7 +138,7 @@ def bernstein_db(points, ks, alpha=None):
     if any(k < 0 for k in ls):
         return numpy.zeros(len(points))
     elif all(k == 0 for k in ls):
-        return numpy.ones(len(points))
+        return math.factorial(ks.sum()) * numpy.ones(len(points))
     else:
         # Calculate coefficient
         coeff = math.factorial(ks.sum())
-- 
2.43.0


From dfe559a48b8a32d6e895f0f26bba6c7ff1c85b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 13/26] fix: turn the functionals of Hdiv and Hcurl elements
 with the field

---
 FIAT/hdivcurl.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/FIAT/hdivcurl.py b/FIAT/hdivcurl.py
index 4ac6f5e..499ac8a 100644
--- a/FIAT/hdivcurl.py
+++ b/FIAT/hdivcurl.py
@@ -10,6 +10,26 @@ from FIAT.tensor_product import TensorProductElement
 from FIAT import functional
 
 
+def _perp_functional(node, sign):
+    """Return the functional which acts on (x2, -x1) for sign = 1, and on
+    (-x2, x1) for sign = -1, as the given one acts on (x1, x2)."""
+    if not node.get_point_dict():
+        # undefined functional
+        return node
+    pt_dict = {}
+    for pt, wcs in node.get_point_dict().items():
+        pt_dict[pt] = []
+        for w, comp in wcs:
+            if comp == (0,):
+                pt_dict[pt].append((-sign * w, (1,)))
+            elif comp == (1,):
+                pt_dict[pt].append((sign * w, (0,)))
+            else:
+                pt_dict[pt].append((w, comp))
+    return functional.Functional(node.ref_el, node.target_shape, pt_dict, {},
+                                 node.functional_type)
+
+
 def Hdiv(element):
     if not isinstance(element, TensorProductElement):
         raise NotImplementedError
@@ -128,6 +148,9 @@ def Hdiv(element):
             else:
                 newnodes.append(node)
         newelement.dual.nodes = newnodes
+    elif newelement._oldmapping == "covariant piola":
+        # the field is perped, so are the functionals acting on it
+        newelement.dual.nodes = [_perp_functional(node, 1) for node in newelement.dual.nodes]
 
     return newelement
 
@@ -250,5 +273,8 @@ def Hcurl(element):
             else:
                 newnodes.append(node)
         newelement.dual.nodes = newnodes
+    elif newelement._oldmapping == "contravariant piola":
+        # the field is perped, so are the functionals acting on it
+        newelement.dual.nodes = [_perp_functional(node, -1) for node in newelement.dual.nodes]
 
     return newelement
-- 
2.43.0


From d0d9e72942a623857aa32e0941d7c981664a1304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 14/26] fix: DiscontinuousElement is nodal iff the broken
 element is

It inherited the answer of CiarletElement, so that broken Bernstein,
serendipity and enriched elements called themselves nodal.
---
 FIAT/discontinuous.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/FIAT/discontinuous.py b/FIAT/discontinuous.py
index e37547a..f001315 100644
--- a/FIAT/discontinuous.py
+++ b/FIAT/discontinuous.py
@@ -80,3 +80,7 @@ class DiscontinuousElement(CiarletElement):
     def get_num_members(self, arg):
         "Return number of members of the expansion set."
         return self._element.get_num_members(arg)
+
+    def is_nodal(self):
+        """True if primal and dual bases are orthogonal."""
+        return self._element.is_nodal()
-- 
2.43.0


From 2ccd1104fdfb4cdfaccb12064d9cde2421184315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:36 +0000
Subject: [PATCH 15/26] fix: tabulating HDivTrace derivatives without an entity

---
 FIAT/hdiv_trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/hdiv_trace.py b/FIAT/hdiv_trace.py
index 0f9ee66..381899f 100644
--- a/FIAT/hdiv_trace.py
+++ b/FIAT/hdiv_trace.py
@@ -201,7 +201,7 @@ class HDivTrace(FiniteElement):
                 # Retrieve values by tabulating the DG element
                 element = self.dg_elements[facet_sd]
                 nf = element.space_dimension()
-                nonzerovals, = element.tabulate(order, new_points).values()
+                nonzerovals, = element.tabulate(0, new_points).values()
                 indices = slice(nf * unique_facet, nf * (unique_facet + 1))
 
         else:
-- 
2.43.0


From 736accf84e6eaabacd1f35332fb2d34072b1c0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 16/26] fix: entity transforms of the default and Intrepid
 simplices

get_entity_transform took the missing construct_subelement for a one-dimensional
cell and returned a map onto a single vertex.
---
 FIAT/reference_element.py | 42 +++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/FIAT/reference_element.py b/FIAT/reference_element.py
index 0a13eba..d4d3a25 100644
--- a/FIAT/reference_element.py
+++ b/FIAT/reference_element.py
@@ -408,13 +408,7 @@ class Simplex(Cell):
             assert entity == 0
             return lambda point: point
 
-        try:
-            subcell = self.construct_subelement(dim)
-        except NotImplementedError:
-            # Special case for 1D elements.
-            x_c, = self.get_vertices_of_subcomplex(topology[0][entity])
-            return lambda x: x_c
-
+        subcell = self.construct_subelement(dim)
         subdim = subcell.get_spatial_dimension()
 
         assert subdim == celldim - codim
@@ -493,7 +487,18 @@ class Point(Simplex):
         return self
 
 
-class DefaultLine(Simplex):
+class DefaultSimplex(Simplex):
+
+    def construct_subelement(self, dimension):
+        """Constructs the reference element of a cell subentity
+        specified by subelement dimension.
+
+        :arg dimension: subentity dimension (integer)
+        """
+        return Point() if dimension == 0 else default_simplex(dimension)
+
+
+class DefaultLine(DefaultSimplex):
     """This is the reference line with vertices (-1.0,) and (1.0,)."""
 
     def __init__(self):
@@ -518,7 +523,7 @@ class UFCInterval(UFCSimplex):
         super(UFCInterval, self).__init__(LINE, verts, topology)
 
 
-class DefaultTriangle(Simplex):
+class DefaultTriangle(DefaultSimplex):
     """This is the reference triangle with vertices (-1.0,-1.0),
     (1.0,-1.0), and (-1.0,1.0)."""
 
@@ -573,8 +578,16 @@ class IntrepidTriangle(Simplex):
         # IntrepidInterval would be.
         return UFCInterval()
 
+    def construct_subelement(self, dimension):
+        """Constructs the reference element of a cell subentity
+        specified by subelement dimension.
+
+        :arg dimension: subentity dimension (integer)
+        """
+        return IntrepidTriangle() if dimension == 2 else ufc_simplex(dimension)
+
 
-class DefaultTetrahedron(Simplex):
+class DefaultTetrahedron(DefaultSimplex):
     """This is the reference tetrahedron with vertices (-1,-1,-1),
     (1,-1,-1),(-1,1,-1), and (-1,-1,1)."""
 
@@ -630,6 +643,15 @@ class IntrepidTetrahedron(Simplex):
     def get_facet_element(self):
         return IntrepidTriangle()
 
+    def construct_subelement(self, dimension):
+        """Constructs the reference element of a cell subentity
+        specified by subelement dimension.
+
+        :arg dimension: subentity dimension (integer)
+        """
+        return IntrepidTetrahedron() if dimension == 3 else \
+            self.get_facet_element().construct_subelement(dimension)
+
 
 class UFCTetrahedron(UFCSimplex):
     """This is the reference tetrahedron with vertices (0,0,0),
-- 
2.43.0


From f738b3aafb3af3e51d632bbe6445ab6409c90e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 17/26] fix: reference normals of nested tensor product cells

The dimension of a nested product is a ragged tuple, which is no array.
---
 FIAT/reference_element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FIAT/reference_element.py b/FIAT/reference_element.py
index d4d3a25..9cf45d5 100644
--- a/FIAT/reference_element.py
+++ b/FIAT/reference_element.py
@@ -771,8 +771,8 @@ class TensorProductCell(Cell):
         """Returns the unit normal in infinity norm to facet_i of
         subelement dimension facet_dim."""
         assert len(facet_dim) == len(self.get_dimension())
-        indicator = numpy.array(self.get_dimension()) - numpy.array(facet_dim)
-        (cell_i,), = numpy.nonzero(indicator)
+        cell_i, = (i for i, (d, facet_d) in enumerate(zip(self.get_dimension(), facet_dim))
+                   if d != facet_d)
 
         n = []
         for i, c in enumerate(self.cells):
-- 
2.43.0


From 116629ccf0b3cf7fab874cba2cbe6eb78550fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 18/26] fix: flatten_reference_cube on nested tensor product
 cells

---
 FIAT/reference_element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FIAT/reference_element.py b/FIAT/reference_element.py
index 9cf45d5..d3174ba 100644
--- a/FIAT/reference_element.py
+++ b/FIAT/reference_element.py
@@ -1061,14 +1061,14 @@ def is_hypercube(cell):
 def flatten_reference_cube(ref_el):
     """This function flattens a Tensor Product hypercube to the corresponding UFC hypercube"""
     flattened_cube = {2: UFCQuadrilateral(), 3: UFCHexahedron()}
-    if numpy.sum(ref_el.get_dimension()) <= 1:
+    if tuple_sum(ref_el.get_dimension()) <= 1:
         # Just return point/interval cell arguments
         return ref_el
     else:
         # Handle cases where cell is a quad/cube constructed from a tensor product or
         # an already flattened element
         if is_hypercube(ref_el):
-            return flattened_cube[numpy.sum(ref_el.get_dimension())]
+            return flattened_cube[tuple_sum(ref_el.get_dimension())]
         else:
             raise TypeError('Invalid cell type')
 
-- 
2.43.0


From 5f0274f2c07c49ec3858bcede065e0295db26485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 19/26] fix: project() looped over the multi-indices of a table
 instead of its rows

---
 FIAT/polynomial_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/polynomial_set.py b/FIAT/polynomial_set.py
index 9bf0b71..7e0ff46 100644
--- a/FIAT/polynomial_set.py
+++ b/FIAT/polynomial_set.py
@@ -185,7 +185,7 @@ def project(f, U, Q):
     pts = Q.get_points()
     wts = Q.get_weights()
     f_at_qps = [f(x) for x in pts]
-    U_at_qps = U.tabulate(pts)
+    U_at_qps = U.tabulate_new(pts)
     coeffs = numpy.array([sum(wts * f_at_qps * phi) for phi in U_at_qps])
     return coeffs
 
-- 
2.43.0


From d55e293bd9ecd7f798e8861381131c238c37b117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:27 +0000
Subject: [PATCH 20/26] fix: apply integral moments to vector-valued functions

---
 FIAT/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index 4ce799a..432ded6 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -304,7 +304,7 @@ class IntegralMoment(Functional):
         """Evaluate the functional on the function fn."""
         pts = list(self.pt_dict.keys())
         wts = numpy.array([foo[0][0] for foo in list(self.pt_dict.values())])
-        result = numpy.dot([fn(p) for p in pts], wts)
+        result = numpy.dot(wts, [fn(p) for p in pts])
 
         if self.comp:
             result = result[self.comp]
-- 
2.43.0


From 2cc2fd9dcd3d1e58033c55437ee75497c3986adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:24 +0000
Subject: [PATCH 21/26] fix: compute pointwise duals of elements without a
 ref_el attribute

---
 FIAT/pointwise_dual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/pointwise_dual.py b/FIAT/pointwise_dual.py
index d403d64..2e91714 100644
--- a/FIAT/pointwise_dual.py
+++ b/FIAT/pointwise_dual.py
@@ -31,7 +31,7 @@ def compute_pointwise_dual(el, pts):
     """
     nbf = el.space_dimension()
 
-    T = el.ref_el
+    T = el.get_reference_element()
     sd = T.get_spatial_dimension()
 
     assert np.asarray(pts).shape == (int(nbf / np.prod(el.value_shape())), sd)
-- 
2.43.0


From c0215e0e3c9783b65f7bc27d712c20e76781d51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:24 +0000
Subject: [PATCH 22/26] fix: refuse Bernstein elements of negative degree

---
 FIAT/bernstein.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FIAT/bernstein.py b/FIAT/bernstein.py
index b727dd6..f428579 100644
--- a/FIAT/bernstein.py
+++ b/FIAT/bernstein.py
@@ -53,6 +53,8 @@ class Bernstein(FiniteElement):
     def __init__(self, ref_el, degree):
         if not isinstance(ref_el, Simplex):
             raise ValueError("Bernstein elements are only defined on simplices.")
+        if degree < 1:
+            raise ValueError("Bernstein elements are only defined for degree >= 1.")
         dual = BernsteinDualSet(ref_el, degree)
         k = 0  # 0-form
         super(Bernstein, self).__init__(ref_el, dual, degree, k)
-- 
2.43.0


From b0059827cbfe4aec0a5cdfd0c061b0f91442d7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:24 +0000
Subject: [PATCH 23/26] fix: refuse nodal enrichment by linearly dependent
 elements

---
 FIAT/nodal_enriched.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FIAT/nodal_enriched.py b/FIAT/nodal_enriched.py
index eebb2eb..323c258 100644
--- a/FIAT/nodal_enriched.py
+++ b/FIAT/nodal_enriched.py
@@ -79,6 +79,11 @@ class NodalEnrichedElement(CiarletElement):
         super(NodalEnrichedElement, self).__init__(poly_set, dual_set, order,
                                                    formdegree=formdegree, mapping=mapping)
 
+        # Inverting a singular matrix need not fail in floating point
+        if np.linalg.matrix_rank(self.V) < self.V.shape[0]:
+            raise ValueError("Elements given for construction of "
+                             "NodalEnrichedElement are linearly dependent")
+
 
 def _merge_coeffs(coeffss):
     # Number of bases members
-- 
2.43.0


From 57b333160b1fa1e2a080623eb73e5bf7a5f3395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:45 +0000
Subject: [PATCH 24/26] fix: find the facets of HDivTrace on simplices that are
 not UFC

---
 FIAT/hdiv_trace.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/FIAT/hdiv_trace.py b/FIAT/hdiv_trace.py
index 381899f..c7075e0 100644
--- a/FIAT/hdiv_trace.py
+++ b/FIAT/hdiv_trace.py
@@ -195,14 +195,19 @@ class HDivTrace(FiniteElement):
 
             # Otherwise, extract non-zero values and insertion indices
             else:
+                # The points lie on the facet opposite to this vertex
+                topology = self.ref_el.get_topology()[facet_sd]
+                facet, = (i for i in topology if unique_facet not in topology[i])
+
                 # Map points to the reference facet
-                new_points = map_to_reference_facet(points, vertices, unique_facet)
+                element = self.dg_elements[facet_sd]
+                facet_vertices = element.get_reference_element().get_vertices()
+                new_points = np.dot(coordinates[:, topology[facet]], facet_vertices)
 
                 # Retrieve values by tabulating the DG element
-                element = self.dg_elements[facet_sd]
                 nf = element.space_dimension()
                 nonzerovals, = element.tabulate(0, new_points).values()
-                indices = slice(nf * unique_facet, nf * (unique_facet + 1))
+                indices = slice(nf * facet, nf * (facet + 1))
 
         else:
             entity_dim, _ = entity
-- 
2.43.0


From 9b2286558d2f8c889ff3181b38ca460fee7d385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:45 +0000
Subject: [PATCH 25/26] fix: build Bernstein elements on simplices with
 unsorted entities

---
 FIAT/bernstein.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/bernstein.py b/FIAT/bernstein.py
index f428579..1624ad5 100644
--- a/FIAT/bernstein.py
+++ b/FIAT/bernstein.py
@@ -26,7 +26,7 @@ class BernsteinDualSet(DualSet):
                       for dim, entities in topology.items()}
 
         # Calculate inverse topology
-        inverse_topology = {vertices: (dim, entity_i)
+        inverse_topology = {tuple(sorted(vertices)): (dim, entity_i)
                             for dim, entities in topology.items()
                             for entity_i, vertices in entities.items()}
 
-- 
2.43.0


From d83b08a67c25d7fc7e091d8099b5750410a52f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:52 +0000
Subject: [PATCH 26/26] fix: number face functions of serendipity hexahedra
 alike on all faces

On faces across the second direction the functions of degree 5 and more were
numbered with the coordinates of the face exchanged, unlike on the others.
---
 FIAT/serendipity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/serendipity.py b/FIAT/serendipity.py
index 74b158e..4bcf483 100644
--- a/FIAT/serendipity.py
+++ b/FIAT/serendipity.py
@@ -227,7 +227,7 @@ def f_lambda_0(i, dim, dx, dy, dz, x_mid, y_mid, z_mid):
     else:
         FL = tuple([leg(j, y_mid) * leg(k-4-j, z_mid) * dy[0] * dy[1] * dz[0] * dz[1] * a
                     for a in dx for k in range(4, i + 1) for j in range(k-3)] +
-                   [leg(j, z_mid) * leg(k-4-j, x_mid) * dx[0] * dx[1] * dz[0] * dz[1] * b
+                   [leg(j, x_mid) * leg(k-4-j, z_mid) * dx[0] * dx[1] * dz[0] * dz[1] * b
                     for b in dy for k in range(4, i + 1) for j in range(k-3)] +
                    [leg(j, x_mid) * leg(k-4-j, y_mid) * dx[0] * dx[1] * dy[0] * dy[1] * c
                     for c in dz for k in range(4, i + 1) for j in range(k-3)])
-- 
2.43.0

