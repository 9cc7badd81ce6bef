"""C18, C20, C22, C23: entity support, Bernstein polynomials, collocated elements, pointwise duals."""
import FIAT
import numpy
import core
import geom
import obs
from FIAT.finite_element import entity_support_dofs
from FIAT.pointwise_dual import compute_pointwise_dual
from FIAT.quadrature_element import QuadratureElement
from build import build, cell, key
from core import nums
from drv_meta import code, entmap, leaf as leaf_
from drv_req import GEN

num1 = nums


def name(task):
    return key(task["t"])


def leaf(task):
    return leaf_(task)


def cost(task):
    return .05 + task.get("dim", 5) * task.get("nc", 1) * 2e-3


def rows(v):
    return [num1(r.ravel()) for r in v]


def fiatkey(top, c):
    for q in top:
        if tuple(code(q)) == tuple(c):
            return q


def support(task, e=None, seen=None):
    t = task["t"]
    c = geom.cellof(t)
    e = e or build(t)
    L = max(1, geom.linedeg(t))
    top = e.get_reference_element().get_topology()
    qs = list(geom.codes(c))
    n = task["dim"] % len(qs)
    order = qs[n:] + qs[:n]                        # dimensions in some order, the first one again
    asked = []
    for q in order + order[:1]:
        r = entity_support_dofs(e, fiatkey(top, q))
        asked.append({"c": q, "ent": [{"c": q, "e": int(i), "d": [int(x) for x in ids]} for i, ids in r.items()]})
    mx = []
    zero = (0,) * geom.dim(c)
    for q, i in geom.entlist(c):
        xs = [geom.embed(c, q, i, y, L) for y in geom.lattice(geom.entcell(c, q), L)]
        v = obs.tabulate(seen or e, 0, obs.pts(xs, L))[zero]
        mx.append({"c": q, "e": i, "m": num1(numpy.abs(v).max(axis=(1, 2)))})
    yield {"k": "supp", "t": t, "L": L, "asked": asked, "mx": mx}


def bern(task, e=None):
    t = task["t"]
    e = e or build(t)
    d = geom.dim(geom.cellof(t))
    order = 3 if d < 3 else 2
    ps = GEN[d]
    tab = obs.tabulate(e, order, obs.pts(ps, 12))
    als = sorted(tab, key=lambda a: (sum(a), a))
    yield {"k": "bern", "t": t, "ent": entmap(e.entity_dofs()), "order": order, "al": als, "pts": ps,
           "rows": [rows(tab[a]) for a in als]}


def refuses(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False


def nodes(task, e=None):
    t = task["t"]
    c, k = cell(t["c"]), t["k"]
    q, w, kept, refused = [], [], [], []
    if t["f"] == "QEl":
        rule = FIAT.create_quadrature(c, k)
        q, w = [tuple(x) for x in rule.get_points()], list(rule.get_weights())
        e = QuadratureElement(c, rule.get_points(), rule.get_weights())
        kept = list(e._weights) if hasattr(e, "_weights") else w
        moved = [tuple(y + (.01 if i == 0 else 0.) for y in x) for i, x in enumerate(q)]
        fd = next(x for x in c.get_topology() if sum(code(x)) == c.get_spatial_dimension() - 1)
        refused = [refuses(e.tabulate, 1, q), refuses(e.tabulate, 0, moved), refuses(e.tabulate, 0, q + q[:1]), refuses(e.tabulate, 0, q[:-1]), len(q) == 1 or refuses(e.tabulate, 0, q[1:] + q[:1]),
                   refuses(e.tabulate, 0, q, (fd, 0))]
    else:
        e = e or build(t)
        if t["f"] == "KMV":
            rule = FIAT.create_quadrature(c, k, "KMV")
            q, w = [tuple(x) for x in rule.get_points()], list(rule.get_weights())
    x, one = [], []
    for L in e.dual_basis():
        (p, wc), = L.pt_dict.items()
        x.append(tuple(p))
        one.append(len(wc) == 1 and wc[0][0] == 1 and tuple(wc[0][1]) == () and not L.deriv_dict)
    tab = obs.tabulate(e, 0, q if t["f"] == "QEl" else x)
    yield {"k": "nodes", "t": t, "ent": entmap(e.entity_dofs()), "x": [num1(p) for p in x], "one": one, "rows": rows(next(iter(tab.values()))),
           "q": [num1(p) for p in q], "w": num1(w), "kept": num1(kept), "refused": refused}


def observe(prop, task):
    yield from {"C18": support, "C20": bern, "C22": nodes, "C23": pdual}[prop](task)


def pdual(task):
    t = task["t"]
    e = build(t)
    d = geom.dim(geom.cellof(t))
    pts = [tuple(float(x) / task["m"] for x in p) for p in task["pts"]]
    D = compute_pointwise_dual(e, pts)
    shape, n = e.value_shape(), e.space_dimension()
    tab = obs.tabulate(e, 0, pts)[(0,) * d]
    where = {p: i for i, p in enumerate(pts)}
    F = []
    for L in D.nodes:
        i, w = [], []
        for p, wcs in L.pt_dict.items():
            for x, comp in wcs:
                i.append(int(numpy.ravel_multi_index(comp, shape) if shape else 0) * len(pts) + where[tuple(p)] + 1)
                w.append(float(x))
        F.append({"i": i, "w": num1(w), "shape": [int(s) for s in L.target_shape]})
    yield {"k": "dual", "t": t, "rows": [num1(tab[f].ravel()) for f in range(n)], "F": F}
    yield {"k": "layout1", "t": t, "ent": entmap(D.get_entity_ids()), "own": entmap(e.entity_dofs())}


assert core
