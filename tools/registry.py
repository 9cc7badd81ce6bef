#!/usr/bin/env python3
"""The list of properties; writes properties.jsonl and MANIFEST.json."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, note, technique, claimed=True, state=(), observe=()):
    P.append(dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                           **({"observe_at": list(observe)} if observe else {})},
                  note=note, technique=technique, claimed=claimed))


TV = "TLA+ specification; TLC enumerates the scenarios, real runs are recorded and TLC validates each trace against the specification"
BOUND = ("Holds on every element the algebra of the specification reaches within its bounds (families, degrees and nesting in "
         "spec/Algebra.tla) at the points the specification prescribes; the judge works in fixed point with 38 fractional bits "
         "and tolerances near 2^-19. Trusts TLC, the Java override of Num.tla (cross-checked by SelfTestNum) and the recorder.")
ALG = "every element that can be composed: families, degrees, variants, cells and combinators up to the bounds of the specification"

prop("C01", "Basis functions are dual to the functionals",
     "For every element that calls itself nodal, applying its j-th functional to its i-th basis function, as tabulated, gives 1 when i = j and 0 otherwise. This holds for elementary elements of every degree and variant and for products, wrapped, restricted, broken, mixed and nodally enriched elements alike.",
     ["inputs", "configurations", "programs"], ALG,
     "The tests check duality for a few elements at fixed low degrees and hardly for any composed element; the property quantifies over all degrees, variants and compositions.",
     ["FIAT/finite_element.py", "FIAT/dual_set.py", "FIAT/functional.py", "FIAT/tensor_product.py", "FIAT/nodal_enriched.py", "FIAT/restricted.py"],
     [("inverting the generalised Vandermonde matrix", "FIAT/finite_element.py:CiarletElement.__init__"), ("applying functionals to the expansion set", "FIAT/dual_set.py:DualSet.to_riesz")],
     BOUND + " Products whose functionals FIAT leaves undefined are outside (DualDefined in Families.tla).", TV)
prop("C02", "Degrees of freedom are laid out on the entities of the cell",
     "The degrees of freedom 0..n-1 of an element are partitioned over the entities of its cell, with the number per entity which the family prescribes, the closure of an entity owns exactly the degrees of freedom of the entities in it, and functionals only look at the closure of the entity that owns them. This holds for elementary and composed elements.",
     ["inputs", "configurations", "programs"], ALG,
     "Tests compare layouts for a handful of elements; code generators index with the layout of any element a user composes.",
     ["FIAT/dual_set.py", "FIAT/finite_element.py", "FIAT/tensor_product.py", "FIAT/enriched.py", "FIAT/restricted.py", "FIAT/reference_element.py"],
     [("entity_ids built by every dual set", "FIAT/*.py"), ("closure ids", "FIAT/dual_set.py:make_entity_closure_ids")], BOUND, TV,
     observe=["entity_dofs()", "entity_closure_dofs()", "dual_basis()", "space_dimension()"])
prop("C03", "Traces vanish off the closure of an entity",
     "On each entity of the cell, only the basis functions whose degrees of freedom belong to the closure of that entity have a non-zero trace of the conforming kind: values for H1 elements, values and gradients for C1 elements, normal components for H(div), tangential components for H(curl), tangential-tangential or normal-normal components for tensor elements. This holds for composed elements as far as their parts conform.",
     ["inputs", "configurations", "programs"], ALG,
     "Conformity is a statement about all points of all entities for all degrees; tests look at a few elements and points or not at all.",
     ["FIAT/lagrange.py", "FIAT/raviart_thomas.py", "FIAT/nedelec.py", "FIAT/nedelec_second_kind.py", "FIAT/brezzi_douglas_marini.py", "FIAT/regge.py", "FIAT/hellan_herrmann_johnson.py", "FIAT/hdivcurl.py", "FIAT/serendipity.py", "FIAT/kong_mulder_veldhuizen.py"],
     [("functionals on facets", "FIAT/functional.py"), ("entity numbering", "FIAT/dual_set.py")], BOUND, TV)
prop("C04", "Neighbouring cells agree on the entity they share",
     "Seen from each entity of one kind in the entity's own coordinates, the traces of the basis functions of its closure, taken in the order in which the degrees of freedom are numbered, are the same functions. Assembling by matching degrees of freedom of shared entities therefore gives conforming functions.",
     ["inputs", "configurations", "programs"], ALG,
     "Tests never compare traces across entities; an ordering or sign slip on one edge keeps every per-element test green.",
     ["FIAT/reference_element.py", "FIAT/dual_set.py", "FIAT/functional.py", "FIAT/lagrange.py", "FIAT/hdivcurl.py", "FIAT/serendipity.py"],
     [("ordering of entities and points on them", "FIAT/reference_element.py:make_points"), ("UFC orientation of normals and tangents", "FIAT/reference_element.py")],
     BOUND + " Elements with derivative degrees of freedom are outside.", TV)
prop("C05", "Tabulated derivatives are derivatives of the tabulated values",
     "For every element, every derivative order and every multi-index, the tabulated table is the exact partial derivative of the tabulated basis functions, and along every line the values are polynomials of the degree the element promises. A request for derivatives of order n returns exactly the multi-indices of total order up to n.",
     ["inputs", "configurations", "programs"], ALG + "; multi-indices of order up to 2 (3 in the thorough tier)",
     "Tests tabulate derivatives of few elements at few points and mostly first order.",
     ["FIAT/expansions.py", "FIAT/polynomial_set.py", "FIAT/tensor_product.py", "FIAT/bernstein.py", "FIAT/serendipity.py", "FIAT/enriched.py", "FIAT/hdivcurl.py"],
     [("symbolic differentiation of expansion sets", "FIAT/expansions.py"), ("Leibniz in products", "FIAT/tensor_product.py:tabulate"), ("Bernstein derivatives", "FIAT/bernstein.py:bernstein_db")],
     BOUND + " Values at L+2 nodes of a line determine a polynomial of degree L+1, so agreement there is agreement on the line.", TV)
prop("C06", "Every family spans its documented function space",
     "The basis of an elementary element spans the function space its family documents: full polynomials, Raviart-Thomas, Nedelec of either kind, BDM, BDFM, symmetric tensors, bubbles, serendipity and mass-lumped spaces, at every degree and for every variant of the degrees of freedom. Tensor families are symmetric.",
     ["inputs", "configurations"], "every elementary family, cell, degree and variant within the bounds of the specification",
     "Duality does not see the space: a wrong space with a dual basis passes; tests do not compare spaces.",
     ["FIAT/raviart_thomas.py", "FIAT/nedelec.py", "FIAT/brezzi_douglas_fortin_marini.py", "FIAT/kong_mulder_veldhuizen.py", "FIAT/serendipity.py", "FIAT/bubble.py", "FIAT/polynomial_set.py", "FIAT/regge.py"],
     [("polynomial sets assembled from orthonormal expansions", "FIAT/polynomial_set.py")],
     BOUND + " The inclusion is certified by witness coefficients the judge multiplies out, so a passing verdict does not rest on the solver that found them.", TV)
prop("C21", "Elements report what they are",
     "Value shape, pullbacks per degree of freedom, form degree, polynomial degree, order, nodality, dimension, number of sub-elements and reference element reported by an element are those of the documented family or of the composition. They are consistent between the parts and the whole.",
     ["inputs", "configurations", "programs"], ALG,
     "Tests check metadata of few elements; form compilers dispatch on it for every element.",
     ["FIAT/finite_element.py", "FIAT/tensor_product.py", "FIAT/enriched.py", "FIAT/mixed.py", "FIAT/restricted.py", "FIAT/discontinuous.py"],
     [("metadata passed to the base class", "FIAT/finite_element.py:FiniteElement")], BOUND, TV)

exec(open(os.path.join(ROOT, "tools", "more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "more.py")) else None
P.sort(key=lambda p: p["id"])

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    m = {"version": 1, "setup_cmd": "./check.sh setup",
         "checks": [{"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
                     "thorough_cmd": "./check.sh %s thorough" % p["id"], "technique": p["technique"],
                     "level": "model_checking", "level_note": p["note"]} for p in P if p["claimed"]],
         "not_applicable": [{"property": p["id"], "reason": p["note"]} for p in P if not p["claimed"]],
         "notes": "TLA+ with TLC. check.sh PROPERTY [tier] rebuilds everything it needs from spec/ and imports FIAT from /repo."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
