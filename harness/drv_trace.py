"""C12: the trace element."""
import numpy
import core
import geom
import obs
from build import build, key
from core import nums
from drv_comb import genpts
from drv_meta import entmap, leaf, points_of  # noqa: F401


def name(task):
    return key(task["t"])


def cost(task):
    return .1 + task["dim"] * .01


def kind(v):
    if isinstance(v, Exception):
        return type(v).__name__
    v = numpy.asarray(v, dtype=float)
    return "nan" if numpy.isnan(v).all() else "values" if numpy.isfinite(v).all() else "mixed"


def slots(tab, d):
    return [kind(tab[a]) for n in (0, 1) for a in geom.mis(d, n)]


def rows(v):
    return obs.rows(numpy.asarray(v, dtype=float))


def batches(spots, d):
    """Points here and there: one, two, and three of which the last is where the first one is (triangles: anywhere)."""
    for a in spots:
        yield [a]
        for b in spots:
            yield [a, b]
            for q in (spots if d == 2 else [a]):
                yield [a, b, q]


def observe(prop, task, e=None, nodes=None):
    t = task["t"]
    e = e or build(t)
    c = geom.cellof(t)
    d = geom.dim(c)
    z = (0,) * d
    ent = e.entity_dofs()
    nodes = nodes or [points_of(n)[0] for n in e.dual_basis()]
    fac, others = [], []
    for cd, en in geom.entlist(c):
        fd = geom.fiatdim(c, cd)
        fc = geom.entcell(c, cd)
        g = genpts(fc)
        if sum(cd) != d - 1:
            if sum(cd) > 0:
                others.append([kind(v) for v in e.tabulate(1, obs.pts(g, 12), (fd, en)).values()])
            continue
        dofs = ent[fd][en]
        # reference coordinates of the nodes: the facet map is injective on coordinates
        o = numpy.array(geom.embed(c, cd, en, (0,) * (d - 1), 1), dtype=float)
        J = numpy.array([numpy.array(geom.embed(c, cd, en, tuple(int(i == j) for j in range(d - 1)), 1)) - o for i in range(d - 1)]).T
        ys = [[int(round(v)) for v in 12 * numpy.linalg.lstsq(J, numpy.array(nodes[i]) - o, rcond=None)[0]] for i in dofs]
        r = {"c": list(cd), "e": en, "ys": ys,
             "at": rows(e.tabulate(0, obs.pts(ys, 12), (fd, en))[z]),
             "gen": rows(e.tabulate(0, obs.pts(g, 12), (fd, en))[z])}
        one = e.tabulate(1, obs.pts(g, 12), (fd, en))
        r["slots"] = slots(one, d)
        r["gen1"] = rows(one[z])
        if c[0] == "simplex":
            x = obs.pts([geom.embed(c, cd, en, p, 12) for p in g[:3]], 12)     # the fourth lies on a vertex or edge
            x.append(x[0])
            f0, f1 = e.tabulate(0, x), e.tabulate(1, x)
            g2 = list(g[:3]) + [g[0]]
            r["gen"] = rows(e.tabulate(0, obs.pts(g, 12), (fd, en))[z])
            r["found"] = rows(f0[z])
            r["found1"] = rows(f1[z])
            r["same"] = rows(e.tabulate(0, obs.pts(g2, 12), (fd, en))[z])
            r["fslots"] = slots(f1, d)
        fac.append(r)
    off = []
    if c[0] == "simplex":
        spots = [(cd, en) for cd, en in geom.entlist(c)]
        x = {(tuple(cd), en): obs.pts([geom.embed(c, cd, en, genpts(("simplex", sum(cd)))[0] if sum(cd) else (), 12)], 12)[0] for cd, en in spots}
        for b in batches(spots, d):
            tab = e.tabulate(1, [x[tuple(cd), en] for cd, en in b])
            kinds = [kind(v) for v in tab.values()]
            off.append({"at": [{"c": list(cd), "e": en} for cd, en in b], "kinds": kinds,
                        "rows": [f for f in range(len(nodes)) if kinds[0] == "values" and abs(tab[z][f]).max() > 1e-9]})
    yield {"k": "trace", "t": t, "ent": entmap(ent), "nodes": [nums(x) for x in nodes], "fac": fac, "others": others, "off": off}
