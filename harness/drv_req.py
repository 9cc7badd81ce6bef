"""C17: batches of points on entities, against every point on its own."""
import numpy
import core
import geom
import obs
from build import build, key
from core import nums
from drv_hist import checksum
from drv_meta import leaf  # noqa: F401

GEN = {0: [()] * 4, 1: [(1,), (4,), (7,), (12,)], 2: [(1, 2), (4, 3), (2, 7), (0, 5)],
       3: [(1, 2, 3), (4, 1, 2), (2, 5, 1), (0, 3, 4)]}


def reqpts(c):
    if c[0] == "simplex":
        return GEN[c[1]]
    if c[0] == "flat":
        return reqpts(c[1])
    cols = [reqpts(q) for q in c[1:]]
    return [sum((col[(j + i) % 4] for i, col in enumerate(cols)), ()) for j in range(4)]


def name(task):
    return key(task["t"])


def cost(task):
    return .02 + len(task["reqs"]) * (.006 + task["dim"] * task["nc"] * 2e-5)


def written(pts, how):
    """One batch, six ways to write it down."""
    d = len(pts[0])
    if how == 0:
        return [tuple(p) for p in pts]
    if how == 1:
        return numpy.array(pts, dtype=float).reshape(len(pts), d)
    if how == 2:
        return tuple(tuple(p) for p in pts)
    if how == 3:
        return [list(p) for p in pts]
    if how == 4:
        return [numpy.array(p, dtype=float) for p in pts]
    a = numpy.full((len(pts), 2 * d + 1), 9.)
    a[:, 1:2 * d + 1:2] = pts
    return a[:, 1:2 * d + 1:2]                       # a view with strides


def frozen(x):
    return [tuple(float(y) for y in p) for p in x]


def sums(v):
    """Per point: sums over functions and components."""
    v = numpy.asarray(v, dtype=float)
    return [checksum([v[..., j]]) for j in range(v.shape[-1])]


def observe(prop, task):
    t = task["t"]
    c = geom.cellof(t)
    e = build(t)
    nf, vs = e.space_dimension(), tuple(e.value_shape())
    top = max(r["order"] for r in task["reqs"])
    refs = []
    for q, i in geom.entlist(c):
        ys = reqpts(geom.entcell(c, q))[:1 if sum(q) == 0 else 4]
        xs = [geom.embed(c, q, i, y, 12) for y in ys]
        out = []
        for x in xs:
            tab = {obs.norm_alpha(a): v for a, v in e.tabulate(top, obs.pts([x], 12)).items()}
            als = sorted(tab)
            out.append([sums(tab[a])[0] for a in als])
        refs.append({"c": q, "e": i, "pts": xs, "al": als, "at": out})
    reqs = []
    for r in task["reqs"]:
        ys = reqpts(geom.entcell(c, tuple(r["c"])))
        P = written(obs.pts([ys[k] for k in r["batch"]], 12), r["how"])
        before = frozen(P)
        if r["named"]:
            tab = e.tabulate(r["order"], P, (geom.fiatdim(c, tuple(r["c"])), r["e"]))
        else:
            tab = e.tabulate(r["order"], P)
        tab = {obs.norm_alpha(a): numpy.asarray(v) for a, v in tab.items()}
        als = sorted(tab)
        reqs.append({"c": r["c"], "e": r["e"], "batch": r["batch"], "order": r["order"], "al": als, "kept": frozen(P) == before,
                     "shape": all(v.shape == (nf,) + vs + (len(before),) for v in tab.values()),
                     "cols": [sums(tab[a]) for a in als]})
    yield {"k": "req", "t": t, "nf": nf, "refs": refs, "reqs": reqs}


assert core and nums
