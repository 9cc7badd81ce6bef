"""C15: functionals."""
import functools
import numpy
from core import nums
from drv_set import cell, unitd, UFC
from FIAT import functional as F, polynomial_set as ps, expansions, quadrature
from FIAT.dual_set import DualSet

CELLK = {"PointEvaluation", "ComponentPointEvaluation", "PointDerivative", "IntegralMoment", "ComponentMoment", "IntegralMomentOfDivergence",
         "IntegralMomentOfTensorDivergence", "FrobeniusIntegralMoment", "PointwiseInnerProductEvaluation", "TensorBidirectionalMomentInnerProductEvaluation"}
EDGEK = {"PointEdgeTangentEvaluation", "IntegralMomentOfEdgeTangentEvaluation"}


def one(q):
    return "%s:%s:e%d%s%s%s%s%s.%d" % (q["f"], q["c"], q["e"], "".join("p%d" % i for i in q["pt"]), "".join("b%d" % i for i in q["b"]),
                                      "".join("v%d" % i for i in q["v"]), "".join("w%d" % i for i in q["w"]), "".join("a%d" % i for i in q["a"]), q["i"])


def name(task):
    return "+".join(one(q) for q in task["fs"])


def cost(task):
    return (.02, .02, .06, .3)[unitd(task["fs"][0]["c"])] * len(task["fs"])


def leaf(task):
    return None


def shape(q):
    d = unitd(q["c"])
    if q["f"] in ("PointEvaluation", "PointDerivative", "PointNormalDerivative", "PointNormalSecondDerivative", "IntegralMoment", "IntegralMomentOfNormalDerivative"):
        return ()
    if q["f"] in ("IntegralLegendreNormalNormalMoment", "IntegralLegendreNormalTangentialMoment", "IntegralMomentOfTensorDivergence", "IntegralMomentOfNormalNormalEvaluation",
                  "PointwiseInnerProductEvaluation", "TensorBidirectionalMomentInnerProductEvaluation"):
        return (d, d)
    if q["f"] in ("ComponentPointEvaluation", "ComponentMoment"):
        return (q["w"][0],)
    if q["f"] == "FrobeniusIntegralMoment":
        return tuple(q["w"])
    return (d,)


def bary(x, p):
    v = numpy.asarray(x.get_vertices(), dtype=float)
    lam = numpy.linalg.solve((v[1:] - v[0]).T, numpy.asarray(p, dtype=float) - v[0])
    return numpy.concatenate([[1 - lam.sum()], lam])


def make(q):
    x = cell(q["c"])
    d, f, e = unitd(q["c"]), q["f"], q["e"]
    k = d if f in CELLK else 1 if f in EDGEK else d - 1
    if q["pt"] or (f.startswith("Point") and not q["b"]):
        v = numpy.asarray(x.get_vertices_of_subcomplex(x.get_topology()[k][e]), dtype=float)
        pt = tuple(((12 - sum(q["pt"])) * v[0] + sum((b * v[i + 1] for i, b in enumerate(q["pt"])), numpy.zeros(d))) / 12.)
    if q["b"]:
        ref = x.construct_subelement(k) if k < d else x
        Q = quadrature.make_quadrature(ref, 4 if k < 3 else 3)
        g = numpy.array([numpy.prod(bary(ref, p) ** numpy.array(q["b"])) for p in Q.get_points()])
    vec, wec = numpy.array(q["v"], dtype=float), numpy.array(q["w"], dtype=float)
    if f == "PointEvaluation":
        return F.PointEvaluation(x, pt)
    if f == "ComponentPointEvaluation":
        return F.ComponentPointEvaluation(x, q["i"], tuple(q["w"]), pt)
    if f == "PointDerivative":
        return F.PointDerivative(x, pt, tuple(q["a"]))
    if f in ("PointNormalDerivative", "PointNormalSecondDerivative", "PointNormalEvaluation", "PointEdgeTangentEvaluation", "PointScaledNormalEvaluation"):
        return getattr(F, f)(x, e, pt)
    if f == "PointFaceTangentEvaluation":
        return F.PointFaceTangentEvaluation(x, e, q["i"], pt)
    if f == "PointwiseInnerProductEvaluation":
        return F.PointwiseInnerProductEvaluation(x, vec, wec, pt)
    if f == "IntegralMoment":
        return F.IntegralMoment(x, Q, g)
    if f == "ComponentMoment":
        return F.IntegralMoment(x, Q, g, (q["i"],), tuple(q["w"]))
    if f == "IntegralMomentOfDivergence":
        return F.IntegralMomentOfDivergence(x, Q, g)
    if f == "IntegralMomentOfTensorDivergence":
        return F.IntegralMomentOfTensorDivergence(x, Q, numpy.outer(vec, g))
    if f == "FrobeniusIntegralMoment":
        return F.FrobeniusIntegralMoment(x, Q, numpy.multiply.outer(vec.reshape(q["w"]), g))
    if f == "TensorBidirectionalMomentInnerProductEvaluation":
        return F.TensorBidirectionalMomentInnerProductEvaluation(x, vec, wec, Q, g, 4)
    if f == "IntegralMomentOfNormalDerivative":
        return F.IntegralMomentOfNormalDerivative(x, e, Q, g)
    if f == "MonkIntegralMoment":
        return F.MonkIntegralMoment(x, Q, numpy.outer(g, vec), e)
    if f == "IntegralMomentOfFaceTangentEvaluation":
        return F.IntegralMomentOfFaceTangentEvaluation(x, Q, numpy.outer(vec, g), e)
    if f.startswith("IntegralLegendre"):
        return getattr(F, f)(x, e, q["i"], 6)
    return getattr(F, f)(x, Q, g, e)


def monos(d, deg):
    """Exponents in the order of MIUpTo."""
    def of(d, k):
        if d == 1:
            return [(k,)]
        return [(k - r,) + m for r in range(k + 1) for m in of(d - 1, r)]
    return [m for k in range(deg + 1) for m in of(d, k)]


def comp(shp, c):
    return int(numpy.ravel_multi_index(tuple(int(i) for i in c), shp)) if shp else 0


def riesz(L, P, shp):
    r = numpy.asarray(L.to_riesz(P), dtype=float)
    return r.reshape(-1, r.shape[-1])


def total(x, Ls):
    """The sum of functionals, as a functional that lists all they look at."""
    at, diff = {}, {}
    for L in Ls:
        for p, wc in L.get_point_dict().items():
            at.setdefault(p, []).extend(wc)
        for p, wac in L.deriv_dict.items():
            diff.setdefault(p, []).extend(wac)
    return F.Functional(x, Ls[0].target_shape, at, diff, "Sum")


@functools.lru_cache(None)
def onset(c, n, shp):
    return ps.ONPolynomialSet(cell(c), n, shp) if shp else ps.ONPolynomialSet(cell(c), n)


def observe(prop, task):
    fs = [{k: q[k] for k in ("f", "c", "e", "pt", "b", "v", "w", "a", "i")} for q in task["fs"]]
    Ls = [make(q) for q in fs]
    x, d = cell(fs[0]["c"]), unitd(fs[0]["c"])
    shp = shape(fs[0])
    n = max([2] + [L.max_deriv_order for L in Ls])
    P = onset(fs[0]["c"], n, shp)
    if len(fs) > 1:
        D = DualSet(Ls, x, {k: {e: [] for e in es} for k, es in x.get_topology().items()})
        m1, m2 = [[nums(r) for r in numpy.asarray(D.to_riesz(P), dtype=float).reshape(len(Ls), -1)] for _ in range(2)]
        S = total(x, Ls)
        D = DualSet(Ls[:1] + [S], x, {k: {e: [] for e in es} for k, es in x.get_topology().items()})
        m3 = numpy.asarray(D.to_riesz(P), dtype=float).reshape(2, -1)
        yield {"k": "dset", "fs": fs, "mat": m1, "again": m2, "rows": [nums(riesz(L, P, shp)) for L in Ls],
               "sum": nums(riesz(S, P, shp)), "insum": nums(m3[1]), "order": int(S.max_deriv_order)}
        return
    q, L = fs[0], Ls[0]
    pts, wts, alphas = [], [], [(0,) * d]
    for p, wc in L.pt_dict.items():
        for w, c in wc:
            wts.append({"p": len(pts), "w": nums([w])[0], "a": [0] * d, "c": comp(shp, c), "t": 0})
        pts.append(tuple(p))
    for p, wac in L.deriv_dict.items():
        for w, a, c in wac:
            a = tuple(int(i) for i in a)
            if a not in alphas:
                alphas.append(a)
            wts.append({"p": len(pts), "w": nums([w])[0], "a": list(a), "c": comp(shp, c), "t": alphas.index(a)})
        pts.append(tuple(p))
    E = expansions.get_expansion_set(x)
    tabs = [{"rows": [nums(r) for r in E.tabulate(n, pts)]}]
    if len(alphas) > 1:
        der = onset(q["c"], n, ()).tabulate(pts, max(sum(a) for a in alphas))
        tabs += [{"rows": [nums(r) for r in der[a]]} for a in alphas[1:]]
    called = []
    ms = monos(d, 3)
    if q["f"] in ("PointEvaluation", "PointDerivative", "IntegralMoment", "ComponentMoment"):
        for m, mu in enumerate(ms):
            if q["f"] == "PointDerivative" and m % 3:
                continue
            for c in range(max(1, int(numpy.prod(shp)))):
                def fn(y):
                    v = 1
                    for i in range(d):
                        for _ in range(mu[i]):
                            v = v * y[i]
                    if not shp:
                        return v
                    r = numpy.zeros(shp)
                    r[c] = v
                    return r
                called.append({"m": m, "c": c, "x": nums([float(L(fn))])[0]})
    yield {"k": "fun", "q": q, "shape": [int(i) for i in L.target_shape], "order": int(L.max_deriv_order), "pts": [nums(p) for p in pts],
           "wts": wts, "tabs": tabs, "called": called, "riesz": [nums(r) for r in riesz(L, P, shp)]}
