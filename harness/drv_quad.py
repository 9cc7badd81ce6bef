"""C07: quadrature rules."""
import math
import numpy
import build
import geom
from core import nums, num
from FIAT import quadrature, orthopoly, reference_element as re
from FIAT.quadrature_schemes import create_quadrature


def name(task):
    q = task["q"]
    if q["p"]:
        return "tensor(%s)" % ",".join(name({"q": p}) for p in q["p"])
    return "%s:%s:%s%s" % (q["r"], q["c"].replace(" ", ""), "-".join(map(str, q["n"])), ("/" + q["v"]) if q["v"] else "")


def leaves(c):
    return [c[1]] if c[0] == "simplex" else sum((leaves(x) for x in c[1:]), [])


def dims(q):
    if q["p"]:
        return sum((dims(p) for p in q["p"]), [])
    return leaves(geom.parse(q["c"].replace("default line", "interval").replace("default ", "").replace("intrepid ", "")))


def degs(q):
    if q["p"]:
        return sum((degs(p) for p in q["p"]), [])
    k = len(dims(q))
    n = q["n"] * k if len(q["n"]) == 1 else q["n"]
    return n[:k] if q["r"] == "create" else [2 * x - 1 for x in n[:k]]


def cost(task):
    q = task["q"]
    nf = npt = 1.
    for d, e in zip(dims(q), degs(q)):
        nf *= math.comb(e + d, d)
        npt *= ((e + 2) // 2) ** d
    return .008 + 4e-7 * nf * npt


def leaf(task):
    return None


OTHER = {"default line": re.DefaultLine, "default triangle": re.DefaultTriangle, "default tetrahedron": re.DefaultTetrahedron,
         "intrepid triangle": re.IntrepidTriangle, "intrepid tetrahedron": re.IntrepidTetrahedron}


def cell(name):
    return OTHER[name]() if name in OTHER else build.cell(name)


def nest(c, it):
    """Degrees per elementary factor -> the tuple FIAT takes."""
    if c[0] == "simplex":
        return next(it)
    if c[0] == "flat":
        return nest(c[1], it)
    return tuple(nest(x, it) for x in c[1:])


def rule(q):
    n = q["n"]
    if q["r"] == "tensor":
        return quadrature.make_tensor_product_quadrature(*[rule(p) for p in q["p"]])
    c = cell(q["c"])
    if q["r"] == "create":
        deg = n[0] if len(n) == 1 else nest(geom.parse(q["c"]), iter(n))
        if q["v"] == "default":
            return create_quadrature(c, deg)
        return create_quadrature(c, deg, q["v"])
    if q["r"] == "make":
        return quadrature.make_quadrature(c, n[0])
    if q["r"] == "GJ":
        return quadrature.GaussJacobiQuadratureLineRule(c, n[0])
    if q["r"] == "GL":
        return quadrature.GaussLegendreQuadratureLineRule(c, n[0])
    if q["r"] == "GLL":
        return quadrature.GaussLobattoLegendreQuadratureLineRule(c, n[0])
    if q["r"] == "GR":
        return quadrature.RadauQuadratureLineRule(c, n[0], right=q["v"] == "right")
    raise KeyError(q["r"])


def observe(prop, task):
    q = task["q"]
    if q["r"] == "face":
        r = quadrature.UFCTetrahedronFaceQuadratureRule(int(q["v"]), q["n"][0])
        ref = r.reference_rule()
        yield {"k": "facequad", "q": q, "face": int(q["v"]), "pts": [nums(x) for x in r.get_points()], "w": nums(r.get_weights()),
               "ref": [nums(x) for x in ref.get_points()], "refw": nums(ref.get_weights()),
               "J": [[int(round(y)) for y in row] for row in r.jacobian()]}
        return
    if q["r"] in ("jacobi", "orthogauss"):
        a, b, n = q["n"]
        if q["r"] == "jacobi":
            x, w = quadrature.compute_gauss_jacobi_rule(float(a), float(b), n)
        else:
            x, w = orthopoly.gauss(*orthopoly.rec_jacobi(n, a, b))
        yield {"k": "jacobi", "q": q, "x": nums(x), "w": nums(w)}
        return
    r = rule(q)
    pts = numpy.asarray(r.get_points(), dtype=float)
    pts = pts.reshape(pts.shape[0], -1)
    val = r.integrate(lambda x: 1. + sum((i + 2) * y for i, y in enumerate(x)))
    yield {"k": "quad", "q": q, "pts": [nums(x) for x in pts], "w": nums(r.get_weights()), "int": num(val)}
