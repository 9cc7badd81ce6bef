prop("C07", "Quadrature rules are exact to the promised degree",
     "A quadrature rule lies inside its cell, its weights sum to the volume of the cell, and it integrates every polynomial exactly up to the degree that was asked for, or that its number of points promises: for every scheme, degree, cell, tuple of degrees on products of cells, line rule, face rule and tensor product of rules, on UFC and other reference cells. integrate() is the weighted sum over the points.",
     ["inputs", "configurations"], "every scheme, cell, degree and product of rules within the bounds of spec/Quadrature.tla",
     "Tests integrate a few monomials at a few degrees; a wrong constant in a hard-coded scheme or a degree off by one shows only on the one polynomial that is no longer exact.",
     ["FIAT/quadrature.py", "FIAT/quadrature_schemes.py", "FIAT/orthopoly.py", "FIAT/jacobi.py", "FIAT/expansions.py"],
     [("hard-coded schemes", "FIAT/quadrature_schemes.py:_triangle_scheme,_tetrahedron_scheme,_kmv_lump_scheme"),
      ("collapsed Gauss-Jacobi rules", "FIAT/quadrature.py:CollapsedQuadrature*"), ("tensor products", "FIAT/quadrature.py:make_tensor_product_quadrature")],
     "Exactness is judged on a complete orthogonal basis of the polynomials of the promised degree (per factor on products), which the specification evaluates by its own recurrences, in fixed point with tolerance 2^-22. Trusts TLC, the Java override of Num.tla and the recorder.",
     "TLA+ specification; TLC enumerates rules (elementary ones and tensor products of them), the real rules are recorded and TLC validates them against their promises")
CMB = "TLA+ specification of the algebra of elements; TLC enumerates compositions, the tables and dof maps of parts and whole are recorded from the real code and TLC computes the whole from the parts"
CMBN = BOUND + " The composition laws are pointwise linear in the tables of the parts, so they are judged at points in general position for all derivatives up to order 2."
prop("C08", "Tensor product elements are products of their factors",
     "The basis functions of a tensor product element, and all their derivatives, are the products of those of its factors, function i*n+j being the product of function i of the first and function j of the second factor; its degrees of freedom sit on the products of entities in the same numbering. Flattening the dimensions of such an element changes neither functions nor numbering, only the names of the entities.",
     ["inputs", "configurations", "programs"], "all tensor products and flattened products the algebra of the specification reaches, nested ones and vector-valued factors included",
     "Tests multiply a few scalar pairs at single points; nesting, vector-valued factors, mixed derivatives and the numbering of dofs on all product entities are not covered.",
     ["FIAT/tensor_product.py", "FIAT/reference_element.py"],
     [("outer products of tables", "FIAT/tensor_product.py:TensorProductElement.tabulate"), ("entity numbering of products", "FIAT/tensor_product.py:TensorProductElement.__init__"),
      ("unflattening map", "FIAT/reference_element.py:compute_unflattening_map")], CMBN, CMB)
prop("C09", "H(div) and H(curl) wrappers place values in the right component",
     "Hdiv and Hcurl of a tensor product keep its degrees of freedom and put the scalar or plane value of each function into the component the form degrees and pullbacks of the factors prescribe, with the documented signs (minus in the first component for H(div) with a continuous first factor, quarter turns between H(div) and H(curl) plane fields), zero elsewhere, for values and derivatives alike.",
     ["inputs", "configurations", "programs"], "every product of the algebra that admits one of the wrappers, in both orders of the factors",
     "Tests exercise one product per wrapper; the sign and rotation branches are chosen by form degrees and pullbacks of the factors.",
     ["FIAT/hdivcurl.py"], [("placement of components", "FIAT/hdivcurl.py:Hdiv.tabulate,Hcurl.tabulate")], CMBN, CMB)
prop("C10", "Enriched and mixed elements concatenate their parts",
     "An enriched element has the functions of its parts one after another, a mixed element has them in its own block of components each, and the degrees of freedom on every entity are those of the parts, shifted. A nodal enrichment spans the same space with functions that are fixed combinations of those of the parts, in every derivative. This holds for elements of any cell, order of derivative and composition.",
     ["inputs", "configurations", "programs"], "all enriched, nodally enriched and mixed elements the algebra reaches",
     "Tests combine one or two pairs; tables with vanishing derivatives, three parts, or parts of different shapes are not covered.",
     ["FIAT/enriched.py", "FIAT/nodal_enriched.py", "FIAT/mixed.py"],
     [("stacking tables", "FIAT/enriched.py:EnrichedElement.tabulate"), ("blocks of components", "FIAT/mixed.py:MixedElement.tabulate"), ("offsets", "FIAT/mixed.py:concatenate_entity_dofs")], CMBN, CMB)
prop("C11", "Restricted and broken elements keep the functions they select",
     "A restricted element has exactly the functions of the selected degrees of freedom of its parent, renumbered along the entities that own them: for restriction domains as well as for any list of indices in any order. Bubbles and facet bubbles are such restrictions of Lagrange elements. A broken element has the same functions as its parent, all owned by the cell.",
     ["inputs", "configurations", "programs"], "all restrictions by domain in the algebra, and lists of indices generated by spec/Subsets.tla for every elementary element of up to 20 functions",
     "Tests restrict a couple of elements to two domains; index lists, tensor-valued elements and restriction of nodal enrichments are not covered.",
     ["FIAT/restricted.py", "FIAT/bubble.py", "FIAT/discontinuous.py", "FIAT/discontinuous_raviart_thomas.py"],
     [("selecting functions and functionals", "FIAT/restricted.py:RestrictedElement.__init__"), ("codimension bubbles", "FIAT/bubble.py:CodimBubble")], CMBN, CMB)
prop("C12", "Trace elements live on facets",
     "The functions of an HDivTrace element live on one facet each: on the facet that owns them they are the functions of the discontinuous element of that facet, on every other facet they vanish, derivatives included. Its degrees of freedom are numbered facet by facet, for simplices and products of them. Where the value depends on which facet a point is meant to lie on, it is looked up from the point; off the facets, in the interior and for derivatives, which are undefined, the tables hold errors, not numbers.",
     ["inputs", "configurations"], "every trace element within the bounds, on simplices and tensor products, tabulated on each facet, on the whole cell, on facets given as points, for orders 0 to 2",
     "Tests look at one degree on simplices; products of cells, different degrees by direction, and points handed over without an entity are hardly covered.",
     ["FIAT/hdiv_trace.py"], [("facet lookup and placement of blocks", "FIAT/hdiv_trace.py:HDivTrace.tabulate"), ("numbering", "FIAT/hdiv_trace.py:HDivTrace.__init__")],
     CMBN, "TLA+ specification of trace elements; TLC enumerates them, tables on facets and on the cell are recorded from the real code and TLC validates them against the tables of the facets' own elements")
prop("C13", "Reference cells are geometrically consistent",
     "The vertices, topology, connectivity, sub-entities, entity transforms, volumes, normals, tangents, barycentric coordinates and facet neighbourhoods of a reference cell all describe the same polytope: an entity transform maps the sub-entity's own reference cell onto the entity, vertices in order; normals are outward, orthogonal to their facet and have the documented length; volumes of the parts add up; lattices of points lie in the interior of their entity; containment tests agree with the barycentric coordinates. Equal names denote equal cells, products compare and flatten accordingly.",
     ["inputs", "configurations"], "every cell generated by spec/Geometry.tla: default, UFC and Intrepid simplices, their products nested in either order, quadrilateral and hexahedron, together with all their entities",
     "Tests check a handful of normals and volumes on UFC simplices; products, nested products and the other conventions are hardly touched.",
     ["FIAT/reference_element.py"],
     [("entity transforms", "FIAT/reference_element.py:*.get_entity_transform"), ("normals and tangents", "FIAT/reference_element.py:SimplicialComplex.compute_normal,compute_tangents,compute_face_tangents"),
      ("products", "FIAT/reference_element.py:TensorProductCell"), ("flattening", "FIAT/reference_element.py:flatten_entities,flatten_reference_cube")],
     BOUND, "TLA+ specification of the reference cells (topology, embeddings, normals, volumes computed from vertices); TLC enumerates cells, everything the real cells say is recorded and TLC validates it")
prop("C14", "Expansion sets are bases of complete polynomial spaces",
     "The expansion set of degree n on a simplex has as many members as polynomials of degree n, they are mutually orthogonal polynomials, nested by degree, and of the normalisation the code promises; derivatives of any order, however they are asked for, are the derivatives of the same functions. Polynomial sets (orthonormal scalar, vector, tensor and symmetric tensor-valued ones, subsets, unions, projections) are the spaces their names say. Jacobi polynomials and their derivatives satisfy their definition.",
     ["inputs", "configurations"], "every expansion and polynomial set generated by spec/Expansions.tla, on UFC and other simplices, with programs of set operations",
     "Tests compare a few degrees with tabulated or symbolic expressions.",
     ["FIAT/expansions.py", "FIAT/polynomial_set.py", "FIAT/jacobi.py"],
     [("recurrences", "FIAT/expansions.py:*ExpansionSet"), ("derivatives", "FIAT/expansions.py:*.tabulate_derivatives,tabulate_jet"), ("sets", "FIAT/polynomial_set.py:*")],
     BOUND, "TLA+ specification of orthogonal bases by recurrence and of the algebra of polynomial sets; TLC enumerates sets and programs over them, the real tables are recorded and TLC validates them")
prop("C15", "Functionals do to fields what their names say",
     "Every functional of FIAT.functional evaluates, differentiates or integrates as its name says: the recorded points, weights, components and derivatives turn any polynomial field into the value, directional derivative, moment over the cell or over the facet that the class documents, with normals and tangents of the cell and the reference measure of the entity. Calling it on a function gives the same number. Its representation with respect to an expansion, and that of any set of functionals, is what the weights do to the expansion functions.",
     ["inputs", "configurations"], "every functional class on every facet, edge, point, moment, derivative, component and cell of spec/Functionals.tla, and sets of two or three functionals that share points and derivatives",
     "Tests evaluate a handful of functionals through elements; a weight that is wrong on one facet, for off-diagonal components, or when several functionals share a point is not seen.",
     ["FIAT/functional.py", "FIAT/dual_set.py"],
     [("weights", "FIAT/functional.py:*"), ("representation", "FIAT/functional.py:Functional.to_riesz"), ("sets", "FIAT/dual_set.py:DualSet.to_riesz")],
     BOUND + " The action is compared on all monomial fields of degree up to 3 (2 for tensors in space).",
     "TLA+ specification of functionals computed from the vertices of the cell by exact integration; TLC enumerates functionals and sets of them, the real weights are recorded and TLC applies them to polynomial fields")
prop("C16", "Answers do not depend on what was asked before",
     "What an element answers - tables of values and derivatives, numbering of degrees of freedom, functionals, cell, metadata - depends on the element and the question alone: not on questions asked before, in whichever order or how often, not on other elements that were built or composed out of it, not on what the caller does with the arrays it got. Building an element again gives the same answers.",
     ["histories", "inputs", "configurations"], "sessions generated by spec/History.tla: every composed element with all its parts, and pairs of elements whose code, tables or caches could get mixed up, thirteen kinds of questions each in an order set by a stride, building interleaved with asking",
     "Every test builds a new element and asks one question; the caches (serendipity's symbolic tables, expansion sets, quadrature) and the objects composed elements share with their parts only matter over a history.",
     ["FIAT/serendipity.py", "FIAT/tensor_product.py", "FIAT/hdivcurl.py", "FIAT/finite_element.py", "FIAT/functional.py", "FIAT/reference_element.py"],
     [("cached tables", "FIAT/serendipity.py:Serendipity.tabulate"), ("functionals shared with factors", "FIAT/tensor_product.py:TensorProductElement.__init__"), ("wrappers", "FIAT/hdivcurl.py:Hdiv,Hcurl"),
      ("cells shared by all elements", "FIAT/reference_element.py")],
     BOUND + " Tables are compared by four checksums each. The reference is the real code in a process of its own that has built nothing but the element and been asked half of the questions in the opposite order.",
     "TLA+ specification of sessions (build, compose, ask, ask again); TLC enumerates sessions, each is replayed on the real code in one process and TLC validates that it is one the machine admits and that every answer is the element's own")
prop("C17", "Tables depend on points alone, not on how they are asked for",
     "Tabulation yields, for every derivative up to the order asked for and no other, a table with a row per function and a column per point; the column depends on the element and the point alone: not on the other points of the batch, their order or repetition, not on whether the batch is a list, tuple or (strided) array, and not on the highest order asked for. Points given on an entity of the cell stand for their images on the cell, and the points handed over are left as they were.",
     ["inputs", "configurations", "programs"], "batches generated by spec/Requests.tla for every elementary and composed element in bounds: all entities of its cell, batches of 1, 2, 3 and 5 points with repetitions, six kinds of containers, orders 0 to 2",
     "Tests hand over one list of tuples without an entity; entity arguments of composed elements (products, flattened, enriched, mixed, wrapped) are hardly ever exercised.",
     ["FIAT/finite_element.py", "FIAT/tensor_product.py", "FIAT/enriched.py", "FIAT/mixed.py", "FIAT/serendipity.py", "FIAT/discontinuous_pc.py", "FIAT/reference_element.py"],
     [("entity transforms", "FIAT/finite_element.py:CiarletElement.tabulate"), ("splitting points and entities", "FIAT/tensor_product.py:TensorProductElement.tabulate,FlattenedDimensions.tabulate"),
      ("collecting tables", "FIAT/enriched.py:EnrichedElement.tabulate,FIAT/mixed.py:MixedElement.tabulate")],
     BOUND + " Columns are compared by four sums over functions and components each.",
     "TLA+ specification of requests (batches that grow point by point on an entity); TLC enumerates them, the real tables are recorded and TLC validates them against those of single points on the cell")
prop("C18", "Functions listed for an entity are those that do not vanish on it",
     "The functions which an element lists as supported on an entity of its cell are exactly the basis functions that do not vanish identically there, whichever dimension is asked for, in whichever order, and again on a second request. This holds for elementary and composed elements alike.",
     ["inputs", "configurations", "programs"], ALG + "; every dimension of entities, one of them twice; MixedElement and trace elements do not offer the service",
     "Tests compare literal lists for a few elements on a prism; the answer comes from integrals against a threshold, which a change of scaling, quadrature or caching breaks for some degrees or entities only.",
     ["FIAT/finite_element.py", "FIAT/reference_element.py", "FIAT/tensor_product.py"],
     [("integrals against a threshold, cached on the element", "FIAT/finite_element.py:entity_support_dofs")],
     BOUND + " Functions are sampled on a lattice of the entity which determines a polynomial of the element's degree.", TV)
prop("C19", "Requests that mean nothing are refused, the others answered",
     "Asking for a family on a cell or at a degree it does not exist for, for an unknown variant, scheme, cell or restriction, for a quadrature rule no one offers, or for a combination of elements whose cells, values or mappings do not fit, raises an exception. Every request with a meaning is answered, by an element, cell or rule of the size the specification gives it.",
     ["inputs", "configurations"], "8000 requests generated by spec/Contracts.tla: all families on all cells and degrees from -2 up, variants, quadrature schemes, cells by name, all pairs out of a pool of 31 elements put together in every way, restrictions; where the documentation does not decide, either answer is accepted",
     "Tests try a handful of illegal arguments; what is not refused silently yields an element without functions or a wrong rule.",
     ["FIAT/check_format_variant.py", "FIAT/quadrature_schemes.py", "FIAT/reference_element.py", "FIAT/enriched.py", "FIAT/nodal_enriched.py", "FIAT/mixed.py", "FIAT/restricted.py", "FIAT/tensor_product.py", "FIAT/hdivcurl.py", "FIAT/bernstein.py"],
     [("degree checks", "FIAT/*.py:__init__"), ("variants", "FIAT/check_format_variant.py"), ("schemes", "FIAT/quadrature_schemes.py:create_quadrature"), ("parts that fit", "FIAT/enriched.py,FIAT/nodal_enriched.py,FIAT/mixed.py")],
     "Refusal means any exception. Holds for the requests generated.",
     "TLA+ specification of which requests have a meaning; TLC enumerates requests, the answers of the real code are recorded and TLC validates them")
prop("C20", "Bernstein elements are Bernstein polynomials",
     "The functions which the Bernstein element numbers on an entity are the Bernstein polynomials in the barycentric coordinates of exactly the vertices of that entity, each once, and their tabulated derivatives are the derivatives of those.",
     ["inputs", "configurations"], "intervals to degree 9, triangles to 6, tetrahedra to 4 (14, 9, 6 in the thorough tier), derivatives to order 3 (2 on tetrahedra)",
     "Tests compare values at degrees 1 to 3 on few cells; the element has no functionals, so that nothing else ties its functions down.",
     ["FIAT/bernstein.py"], [("multi-indices and inverse topology", "FIAT/bernstein.py:BernsteinDualSet"), ("values and derivatives", "FIAT/bernstein.py:bernstein_db,bernstein_Dx")],
     "Points in general position; fixed point with 38 fractional bits and tolerances near 2^-18.",
     "TLA+ specification of Bernstein polynomials with exact integer coefficients; TLC enumerates degrees, real tables are recorded and TLC validates them")
prop("C22", "Collocated elements have their nodes where they say",
     "Lagrange elements are collocated at equispaced points of the entities, Gauss-Legendre, Gauss-Lobatto and Radau elements at the zeros of the polynomials that define those points, mass-lumped elements at the points of their lumping rule with positive weights, and quadrature elements at the points of the rule they were given. Each functional is the value at one node, every node lies on the entity that owns it, and the tables at the nodes are the identity.",
     ["inputs", "configurations"], "degrees to 9 or 10 on intervals, 6 on triangles, 4 on tetrahedra (12 to 14, 7, 5 in the thorough tier), all lumped elements, quadrature elements on every cell",
     "Tests check that values at the nodes are the identity, which holds wherever the nodes are; the points themselves are compared for few degrees.",
     ["FIAT/lagrange.py", "FIAT/discontinuous_lagrange.py", "FIAT/gauss_legendre.py", "FIAT/gauss_lobatto_legendre.py", "FIAT/gauss_radau.py", "FIAT/kong_mulder_veldhuizen.py", "FIAT/quadrature_element.py", "FIAT/reference_element.py"],
     [("points on entities", "FIAT/reference_element.py:make_lattice,make_points"), ("points of rules", "FIAT/quadrature.py"), ("nodes of lumped elements", "FIAT/kong_mulder_veldhuizen.py"), ("lookup of points", "FIAT/quadrature_element.py:QuadratureElement.tabulate")],
     "Fixed point with 38 fractional bits and tolerances near 2^-20.",
     "TLA+ specification of the nodes (lattices, Legendre recurrences); TLC climbs the degrees, real nodes and tables are recorded and TLC validates them")
prop("C23", "Pointwise duals are dual bases made of point values",
     "Given an element and as many points as make its space unisolvent, the pointwise dual is a set of functionals, each a combination of values at those points, dual to the basis of the element and numbered like its own. This holds for elements with and without functionals of their own, for fields, products and broken elements.",
     ["inputs", "configurations", "programs"], "every element of the algebra whose space is all polynomials up to a degree (by factor on products, by component for fields), at lattices, shrunken lattices and points in general position",
     "The tests cover two elements; numbering and ordering of components over points only matter for fields and products.",
     ["FIAT/pointwise_dual.py"], [("weights by inverting the matrix of values", "FIAT/pointwise_dual.py:compute_pointwise_dual")], BOUND, TV)
prop("C24", "Elements do not depend on the convention of the reference simplex",
     "An element built on a simplex with other vertices, or with entities numbered and oriented otherwise, than the UFC one is, seen from the UFC simplex through the affine map between the two, an element of the same family: same space, dual functionals, derivatives that are derivatives, degrees of freedom on the entity they are said to live on, the traces of conforming families determined by the closure of an entity, the same metadata. It keeps the cell it was given.",
     ["inputs", "configurations"], "all families of the algebra, their restrictions, enrichments, mixtures and broken forms, up to 40 functions (120 in the thorough tier), on DefaultLine, DefaultTriangle, DefaultTetrahedron, IntrepidTriangle and IntrepidTetrahedron; families which read the UFC numbering by assertion (mass lumping, second kind Nedelec on tetrahedra from degree 2) excepted",
     "Tests build elements on UFC simplices nearly everywhere, where facet i is opposite to vertex i and every entity lists its vertices in increasing order, so that code relying on either goes unnoticed.",
     ["FIAT/reference_element.py", "FIAT/*.py"], [("entity numbering, tangents and normals", "FIAT/reference_element.py:Simplex"), ("dual sets", "FIAT/*.py:*DualSet"), ("facets of the trace element", "FIAT/hdiv_trace.py:tabulate"), ("entities of Bernstein functions", "FIAT/bernstein.py:BernsteinDualSet")], BOUND, TV)
