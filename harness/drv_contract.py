"""C19: requests that mean something are answered, the others refused."""
import FIAT
import numpy
import core
import geom
import obs
from FIAT.quadrature import make_quadrature
from FIAT.reference_element import ufc_cell, ufc_simplex, default_simplex
from FIAT.tensor_product import FlattenedDimensions
from build import build, combine, convention, key, make_cell, part
from drv_req import reqpts


def name(task):
    q = task["q"]
    return "%s %s" % (q["op"], key(q["t"]) if q["op"] == "el" else ",".join(key(t) for t in q["p"]) + q["c"] + "/" + str(q["k"]) + "/" + q["s"])


def leaf(task):
    return None


def cost(task):
    q = task["q"]
    if q["op"] != "el":
        return .004
    t = q["t"]
    slow = t["f"] in ("Arg", "HHJ", "KMV", "Bell", "QArg") or (t["c"] == "tetrahedron" and 0 <= t["k"] <= 3)
    return max(.01, core.leaf_cost(t)) if slow and t["k"] >= 0 else .01


def use(e, c=None):
    """The dimension of an element that can be tabulated."""
    if c is None:
        x = [.2] * int(e.get_reference_element().get_spatial_dimension())
        p = [tuple(x)]
    else:
        p = obs.pts(reqpts(c)[:1], 12)
    n = int(e.space_dimension())
    tab = e.tabulate(0, p)
    for v in tab.values():
        assert numpy.asarray(v).shape[0] == n
    return n


def answer(q):
    op, p = q["op"], [part(t) for t in q["p"]]
    if op in ("enr", "nod", "mix") and q["c"]:
        with convention(q["c"]):
            p[q["k"] - 1] = part(q["p"][q["k"] - 1])
    if op == "el":
        t = q["t"]
        if q["c"]:
            with convention(q["c"]):
                return int(build(t).space_dimension()) if t["f"] == "Trace" else use(build(t))
        if t["f"] == "Trace":
            return int(build(t, False).space_dimension())
        return use(build(t, False), None if t["c"] == "vertex" else geom.parse(t["c"]))
    if op == "quad":
        r = FIAT.create_quadrature(make_cell(q["c"]), q["k"], q["s"])
        return len(r.get_points())
    if op == "rule":
        return len(make_quadrature(make_cell(q["c"]), q["k"]).get_points())
    if op == "ufc_cell":
        return int(ufc_cell(q["s"]).get_spatial_dimension())
    if op == "ufc_simplex":
        return int(ufc_simplex(q["k"]).get_spatial_dimension())
    if op == "default_simplex":
        return int(default_simplex(q["k"]).get_spatial_dimension())
    if op in ("hdiv", "hcurl"):
        return use(combine(op, [combine("tp", p)]))
    if op in ("enr", "nod", "mix", "tp"):
        return use(combine(op, p))
    if op == "hdiv1":
        return use(FIAT.Hdiv(p[0]))
    if op == "hcurl1":
        return use(FIAT.Hcurl(p[0]))
    if op == "flat1":
        return use(FlattenedDimensions(p[0]))
    if op == "res":
        return use(FIAT.RestrictedElement(p[0], restriction_domain=q["s"]))
    if op == "res-none":
        return use(FIAT.RestrictedElement(p[0]))
    if op == "res-empty":
        return use(FIAT.RestrictedElement(p[0], indices=[]))
    if op == "res-string":
        return use(FIAT.RestrictedElement(p[0], "interior"))
    if op == "res-outside":
        return use(FIAT.RestrictedElement(p[0], indices=[0, p[0].space_dimension()]))
    if op == "quad-each":
        return len(FIAT.create_quadrature(make_cell(q["c"]), tuple([2, 1, 3, 1][:q["k"]]), q["s"]).get_points())
    if op == "trace-each":
        return int(FIAT.HDivTrace(make_cell(q["c"]), tuple([1, 0, 1, 0][:q["k"]])).space_dimension())
    if op == "ent":
        return on_entity(p[0], int(q["s"]), q["k"])
    if op == "short":
        sd = int(p[0].get_reference_element().get_spatial_dimension())
        return len(p[0].tabulate(0, [(.2,) * (sd - 1)]))
    if op == "weights":
        r = make_rule(q["c"])
        w = list(r.get_weights())
        w = w[:-1] if q["k"] < 0 else w + [.25] * q["k"]
        return len(FIAT.quadrature.QuadratureRule(make_cell(q["c"]), r.get_points(), w).get_weights())
    if op == "quadel":
        return misuse_points(q["c"], q["s"])
    raise core.CheckError("unknown request " + op)


def make_rule(c):
    return FIAT.create_quadrature(make_cell(c), 2)


def misuse_points(c, s):
    cell, x = make_cell(c), [tuple(float(v) for v in p) for p in make_rule(c).get_points()]
    e = FIAT.QuadratureElement(cell, x)
    if s == "deriv":
        return len(e.tabulate(1, x))
    if s == "entity":
        dim = [d for d in sorted(cell.get_topology()) if (sum(d) if isinstance(d, tuple) else d) == cell.get_spatial_dimension() - 1][0]
        n = sum(dim) if isinstance(dim, tuple) else dim
        return len(e.tabulate(0, [(.25,) * n] * len(x), (dim, 0)))
    if s == "fewer":
        return len(e.tabulate(0, x[:-1]))
    if s == "moved":
        return len(e.tabulate(0, [tuple(v + 1e-3 for v in p) for p in x]))
    return len(e.tabulate(0, x))


def on_entity(e, dim, which):
    top = e.get_reference_element().get_topology()
    n = len(top.get(dim, [0]))
    tab = e.tabulate(0, [(.2,) * dim], (dim, {-1: -1, 0: 0, 1: n - 1, 2: n}[which]))
    assert len(tab) == 1
    return int(numpy.asarray(list(tab.values())[0]).shape[0])


def observe(prop, task):
    q = task["q"]
    try:
        dim, raised, what = answer(q), False, ""
    except core.CheckError:
        raise
    except Exception as exc:
        dim, raised, what = 0, True, "%s: %s" % (type(exc).__name__, str(exc)[:80])
    yield {"k": "contract", "q": q, "raised": raised, "dim": dim, "what": what}
