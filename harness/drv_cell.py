"""C13: reference cells."""
import numpy
import geom
from itertools import product
from FIAT import reference_element as R
from drv_meta import cellrec, code
from core import nums

NAMES = ["vertex", "interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", "interval * interval",
         "triangle * interval", "interval * triangle", "quadrilateral * interval", "interval * interval * interval",
         "interval * quadrilateral", "triangle * quadrilateral", "triangle * triangle", "vertex * interval", "vertex * triangle"]


def name(task):
    return short(task["c"]) if "c" in task else "cells"


def short(c):
    if c["k"] == "simplex":
        return "PITK"[c["d"]]
    if c["k"] == "other":
        return c["n"]
    inner = "x".join(short(q) for q in c["c"])
    return "flat(%s)" % inner if c["k"] == "flat" else "(%s)" % inner


def cost(task):
    return .05 if "c" not in task or task["c"]["k"] in ("simplex", "other") else .1 + .02 * 3 ** gdim(task["c"])


def leaf(task):
    return None


def gdim(c):
    return c["d"] if c["k"] == "simplex" else 3 if c["k"] == "other" else sum(gdim(q) for q in c["c"])


def fresh(c):
    if c["k"] == "simplex":
        return R.ufc_simplex(c["d"])
    if c["k"] == "other":
        return getattr(R, c["n"])()
    if c["k"] == "flat":
        return R.UFCQuadrilateral() if len(c["c"][0]["c"]) == 2 else R.UFCHexahedron()
    return R.TensorProductCell(*[fresh(q) for q in c["c"]])


def describe(x):
    if isinstance(x, R.TensorProductCell):
        return {"k": "prod", "c": [describe(q) for q in x.cells]}
    if isinstance(x, R.UFCQuadrilateral) or isinstance(x, R.UFCHexahedron):
        return {"k": "flat", "c": [{"k": "prod", "c": [{"k": "simplex", "d": 1}] * x.get_spatial_dimension()}]}
    return {"k": "simplex", "d": {"Point": 0, "UFCInterval": 1, "UFCTriangle": 2, "UFCTetrahedron": 3}[type(x).__name__]}


def tup(c):
    if c["k"] == "simplex":
        return ("simplex", c["d"])
    return (c["k"],) + tuple(tup(q) for q in c["c"])


TP = {0: [()], 1: [(1,), (7,)], 2: [(1, 2), (4, 3), (2, 7)], 3: [(1, 2, 3), (4, 1, 2), (2, 5, 1), (0, 3, 4)]}


def tpts(x):
    """Points of a real cell matching TPts of JudgeCell.tla."""
    if isinstance(x, R.TensorProductCell):
        return [sum(p, ()) for p in product(*[tpts(q) for q in x.cells])]
    if isinstance(x, (R.UFCQuadrilateral, R.UFCHexahedron)):
        return tpts(x.product)
    v = numpy.asarray(x.get_vertices(), dtype=float)
    d = len(v) - 1
    return [tuple(((12 - sum(b)) * v[0] + sum((b[i] * v[i + 1] for i in range(d)), numpy.zeros(v.shape[1]))) / 12.) for b in TP[d]]


def haspoint(c):
    return c["d"] == 0 if c["k"] == "simplex" else True if c["k"] == "other" else any(haspoint(q) for q in c["c"])


def sortcodes(x):
    return sorted((code(d), d) for d in x.get_topology())


def observe(prop, task):
    if "c" not in task:
        one = [fresh(c) for c in task["all"]]
        two = [fresh(c) for c in task["all"]]
        yield {"k": "celleq", "cells": task["all"], "eq": [[bool(a == b) for b in two] for a in one],
               "ne": [[bool(a != b) for b in two] for a in one], "hash": [[hash(a) == hash(b) for b in two] for a in one]}
        yield {"k": "cellname", "names": NAMES, "got": [describe(R.ufc_cell(n)) for n in NAMES]}
        return
    c = task["c"]
    x = fresh(c)
    sd = x.get_spatial_dimension()
    top = x.get_topology()
    cs = sortcodes(x)
    ev = {"k": "cell", "cell": c, "self": cellrec(x), "sd": sd, "shape": x.get_shape(),
          "dim": code(x.get_dimension()), "vol": nums(x.volume())[0]}
    ents, subs, rn = [], [], []
    for q, d in cs:
        sub = x.construct_subelement(d)
        subs.append({"c": q, "x": cellrec(sub)})
        ps = tpts(sub)
        for e in sorted(top[d]):
            tr = x.get_entity_transform(d, e)
            kinds = [lambda p: p, numpy.array, list]          # any of the usual kinds of points
            ents.append({"c": q, "e": e, "sub": [[code(a), int(b)] for a, b in x.sub_entities[d][e]],
                         "vs": [nums(v) for v in x.get_vertices_of_subcomplex(top[d][e])],
                         "tr": [nums(tr(kinds[i % 3](p))) for i, p in enumerate(ps)]})
            if sum(q) == sd - 1 and sd:
                rn.append({"c": q, "e": e, "n": nums(x.compute_reference_normal(d, e))})
    ev.update(ents=ents, subs=subs, rn=rn)
    if not haspoint(c):
        st = (-1, 1, 4, 5) if sd > 3 else (-1, 0, 1, 2, 4, 5)
        box = [tuple(v / 4. for v in p) for p in product(st, repeat=sd)]
        ev["in0"] = [bool(x.contains_point(p)) for p in box]
        ev["in1"] = [bool(x.contains_point(p, epsilon=.25)) for p in box]
    if c["k"] != "prod":
        ev["con"] = [{"a": a, "b": b, "m": [[int(i) for i in t] for t in m]} for (a, b), m in x.get_connectivity().items()]
    if c["k"] in ("prod", "flat"):
        ev["cube"] = bool(R.is_hypercube(x))
        try:
            f = R.flatten_reference_cube(x)
            ev["flat"] = "itself" if f is x else type(f).__name__
        except (TypeError, KeyError) as exc:
            ev["flat"] = type(exc).__name__
    if c["k"] == "prod":
        ft = R.flatten_entities(top)
        ev["ftop"] = [[[int(v) for v in ft[d][e]] for e in sorted(ft[d])] for d in sorted(ft)]
        ev["unfl"] = [{"d": int(d), "e": int(e), "c": code(q), "n": int(n)} for (d, e), (q, n) in R.compute_unflattening_map(top).items()]
    yield ev
    if c["k"] in ("prod", "flat"):
        return
    ents = []
    for q, d in cs:
        for e in sorted(top[d]):
            ents.append({"c": q, "e": e, "vol": nums(x.volume_of_subcomplex(d, e))[0],
                         "tan": [nums(t) for t in x.compute_tangents(d, e)],
                         "ntan": [nums(t) for t in x.compute_normalized_tangents(d, e)],
                         "fet": [nums(t) for t in x.compute_face_edge_tangents(d, e)],
                         "mp": [[nums(p) for p in x.make_points(d, e, n)] for n in range(1, 6)]})
    ev = {"k": "simplex", "cell": c, "ents": ents, "nrm": [], "snrm": [], "etan": [], "netan": [], "ftan": [], "lat": [], "aff": []}
    if sd:
        ev["nrm"] = [nums(x.compute_normal(i)) for i in range(sd + 1)]
        ev["etan"] = [nums(x.compute_edge_tangent(i)) for i in range(len(top[1]))]
        ev["netan"] = [nums(x.compute_normalized_edge_tangent(i)) for i in range(len(top[1]))]
        ev["lat"] = [{"n": n, "b": b, "x": [nums(p) for p in R.make_lattice(x.get_vertices(), n, b)]} for n in range(1, 6) for b in range(3)]
        for o in ("DefaultTriangle", "UFCTriangle", "IntrepidTetrahedron", "DefaultTetrahedron"):
            y = getattr(R, o)()
            for e in (sorted(y.get_topology()[sd]) if sd in y.get_topology() else []):
                ys = y.get_vertices_of_subcomplex(y.get_topology()[sd][e])
                A, b = R.make_affine_mapping(x.get_vertices(), ys)
                ev["aff"].append({"y": [[int(t) for t in v] for v in ys], "A": [nums(r) for r in A], "b": nums(b)})
    if sd > 1:
        ev["snrm"] = [nums(x.compute_scaled_normal(i)) for i in range(sd + 1)]
    if sd == 3:
        ev["ftan"] = [[nums(t) for t in x.compute_face_tangents(i)] for i in range(4)]
    yield ev
