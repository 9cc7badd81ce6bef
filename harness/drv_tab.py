"""C01, C03, C04, C05, C06: tables of basis functions."""
import numpy
import core
import geom
import obs
from build import build, key, part as build_part
from core import nums
from drv_meta import entmap, leaf, code  # noqa: F401


def name(task):
    return key(task["t"])


COST = {"C01": lambda n, t: .03 + n["dim"] ** 2 * 2e-4,
        "C03": lambda n, t: .03 + n["dim"] * n["nc"] * 2e-3,
        "C04": lambda n, t: .03 + n["dim"] * n["nc"] * 2e-3,
        "C05": lambda n, t: .03 + n["dim"] * n["nc"] * (n["L"] + 1) ** 2 * 2e-4,
        "C06": lambda n, t: .03 + n["dim"] ** 2 * n["nc"] * 1e-4}
PROP = None


def cost(task):
    return COST.get(task.get("prop"), COST["C01"])(task, task["t"]) + (
        0.5 * core.leaf_cost(leaf(task)) if task["t"]["f"] in ("res", "nod") else 0)


def ravel(comp, shape):
    n = 0
    for c, s in zip(comp, shape):
        n = n * s + int(c)
    return n


def dual(task, e=None):
    t = task["t"]
    e = e or build(t)
    blocks = []                           # per functional: offset of its block and shape
    parts = [build_part(q) for q in t["p"]] if t["f"] == "mix" else [e]
    off = 0
    for q in parts:
        blocks += [(off, q.value_shape())] * q.space_dimension()
        off += int(numpy.prod(q.value_shape()))
    d = geom.dim(geom.cellof(t))
    zero = (0,) * d
    points, where = [], {}

    def pt(x):
        x = tuple(float(y) for y in numpy.asarray(x, dtype=float).ravel())
        if x not in where:
            where[x] = len(points)
            points.append(x)
        return where[x]

    F, order = [], 0
    alphas = {zero: 0}
    for j, n in enumerate(e.dual_basis()):
        off, shape = blocks[min(j, len(blocks) - 1)]
        terms = {}
        for x, wcs in (getattr(n, "pt_dict", None) or {}).items():
            for w, c in wcs:
                q = (zero, off + ravel(c, shape), pt(x))
                terms[q] = terms.get(q, 0.) + float(w)
        for x, wacs in (getattr(n, "deriv_dict", None) or {}).items():
            for w, a, c in wacs:
                a = tuple(int(i) for i in a)
                order = max(order, sum(a))
                q = (a, off + ravel(c, shape), pt(x))
                terms[q] = terms.get(q, 0.) + float(w)
        F.append((terms, [int(s) for s in n.target_shape]))
    tab = obs.tabulate(e, order, points)
    used = sorted({q for terms, _ in F for q in terms})
    pos = {q: i for i, q in enumerate(used)}
    nf = next(iter(tab.values())).shape[0]
    rows = [nums([tab[a][f, c, p] for a, c, p in used]) for f in range(nf)]
    yield {"k": "dual", "t": t, "rows": rows,
           "F": [{"i": [pos[q] + 1 for q in terms], "w": nums(list(terms.values())), "shape": sh} for terms, sh in F]}


def deriv(task, e=None):
    t = task["t"]
    e = e or build(t)
    c = geom.cellof(t)
    d = geom.dim(c)
    L = task["L"]
    m = 2 * (L + 1)
    dim = task["dim"] / (3 if core.DEEP else 1)
    order = (5 if core.DEEP else 4) if d <= 1 else 4 if dim <= 4 else 3 if dim <= (15 if d == 2 else 9) else 2 if dim <= 36 else 1
    order = min(order, 2 if L > 8 else 3 if L > 7 else 5)       # beyond, the numbers get too large to be compared
    lines = []
    al = None
    for i in range(d):
        base = [1] * d
        pts = [[p if j == i else base[j] for j in range(d)] for p in range(L + 2)]
        tab = obs.tabulate(e, order, obs.pts(pts, m))
        al = list(tab) if al is None else al
        lines.append({"dir": i + 1, "base": base, "pts": pts, "rows": [obs.rows(tab[a]) for a in al]})
    yield {"k": "deriv", "t": t, "order": order, "al": [list(a) for a in al], "m": m, "lines": lines}


def polyval(p, pts):
    v = numpy.zeros(len(pts))
    for coef, ex in p:
        term = numpy.full(len(pts), float(coef))
        for i, k in enumerate(ex):
            term = term * pts[:, i] ** k
        v += term
    return v


_spans = None


def spans():
    global _spans
    if _spans is None:
        items, _ = core.emitted("Spans", "SPAN")
        _spans = {key(s["t"]): s["s"] for s in items}
    return _spans


def span(task, e=None):
    t = task["t"]
    e = e or build(t)
    c = geom.cellof(t)
    m = max(task["L"], 1)
    ints = geom.lattice(c, m)
    pts = numpy.array(obs.pts(ints, m))
    v = obs.tabulate(e, 0, [tuple(x) for x in pts])
    v = next(iter(v.values()))
    A = v.reshape(v.shape[0], -1).T
    sp = spans()[key(dict(t, v=""))]
    B = numpy.array([numpy.concatenate([polyval(p, pts) for p in f]) for f in sp]).T
    w, *_ = numpy.linalg.lstsq(A, B, rcond=None)
    yield {"k": "span", "t": t, "pts": [list(x) for x in ints], "rows": obs.rows(v), "w": [nums(w[:, q]) for q in range(w.shape[1])]}


def traces(kind, task, e=None):
    t = task["t"]
    e = e or build(t)
    c = geom.cellof(t)
    m = task["m"]
    grad = task["kind"] == "gradient"
    tabs = []
    for cd, en in task["claim"]:
        cd = tuple(cd)
        lat = [geom.embed(c, cd, en, x, m) for x in geom.lattice(geom.entcell(c, cd), m)]
        tab = obs.tabulate(e, 1 if grad else 0, obs.pts(lat, m))
        d = geom.dim(c)
        if grad:
            al = [a for n in (0, 1) for a in geom.mis(d, n)]
            v = numpy.concatenate([tab[a] for a in al], axis=1)
        else:
            v = tab[(0,) * d]
        tabs.append({"c": list(cd), "e": en, "pts": [list(x) for x in lat], "rows": obs.rows(v)})
    yield {"k": kind, "t": t, "m": m, "ent": entmap(e.entity_dofs()), "tabs": tabs}


def observe(prop, task):
    if prop == "C01":
        return dual(task)
    if prop == "C05":
        return deriv(task)
    if prop == "C06":
        return span(task)
    if prop == "C03":
        return traces("conform", task)
    if prop == "C04":
        return traces("glue", task)
