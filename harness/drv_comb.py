"""C08 - C11: tables and dof maps of composed elements next to those of their parts."""
import numpy
import core
import FIAT
import geom
import obs
from itertools import product
from build import build, key, part
from core import nums
from drv_meta import entmap, leaf


def name(task):
    return key(task["t"]) + ("[%s]" % ",".join(map(str, task["ix"])) if "ix" in task else "")


def cost(task):
    return .03 + task["dim"] * .004 + (.5 * core.leaf_cost(leaf(task)) if "ix" in task or task["t"]["f"] in ("res", "nod", "DRT") else 0)


GEN = {0: [()], 1: [(1,), (4,), (7,), (12,)], 2: [(1, 2), (4, 3), (2, 7), (0, 5)],
       3: [(1, 2, 3), (4, 1, 2), (2, 5, 1), (0, 3, 4)]}


def genpts(c):
    if c[0] == "simplex":
        return GEN[c[1]]
    if c[0] == "flat":
        return genpts(c[1])
    return [sum(x, ()) for x in product(*[genpts(q) for q in c[1:]])]


def comps(t):
    if t["p"]:
        return t["p"]
    return [dict(t, f={"Bub": "CG", "FBub": "CG", "DRT": "RT"}[t["f"]])]


def table(e, t, order, code=None, num=0):
    """Table on the cell, or on entity (code, num) of it, at the points of the specification."""
    cell = geom.cellof(t)
    p = genpts(cell if code is None else geom.entcell(cell, code))
    tab = obs.tabulate(e, order, obs.pts(p, 12), None if code is None else (geom.fiatdim(cell, code), num))
    al = list(tab)
    return {"pts": [list(x) for x in p], "al": [list(a) for a in al], "rows": [obs.rows(tab[a]) for a in al]}, tab


def sides(e, t, ps):
    """Tables of whole and parts on the entities of the cell below the top one."""
    cell = geom.cellof(t)
    out = []
    order = 1 if e.space_dimension() <= (40 if core.DEEP else 9) else 0
    for code, num in geom.entlist(cell):
        if sum(code) == geom.dim(cell):
            continue
        whole, _ = table(e, t, order, code, num)
        if t["f"] == "tp":
            cs = [geom.cellof(q) for q in ps]
            codes = geom.splitcode(cs, code)
            nums_ = geom.splitnum([len(geom.ents(c, x)) for c, x in zip(cs, codes)], num)
            at = list(zip(codes, nums_))
        elif t["f"] == "flat":
            at = [geom.unflatten(geom.cellof(ps[0]), code[0], num)]
        else:
            at = [(code, num)] * len(ps)
        out.append(dict(whole, s=[list(code), num], order=order,
                        parts=[table(part(q), q, order, *a)[0] for q, a in zip(ps, at)]))
    return out


def observe(prop, task):
    t = task["t"]
    if "ix" in task:
        e0 = part(t)
        e = FIAT.RestrictedElement(e0, indices=list(task["ix"]))
        order = 1
        whole, _ = table(e, t, order)
        base, _ = table(e0, t, order)
        yield dict(whole, k="pick", t=t, ix=task["ix"], order=order, ent=entmap(e.entity_dofs()), parts=[base],
                   pents=[entmap(e0.entity_dofs())])
        return
    order = 2 if task["dim"] <= (80 if core.DEEP else 40) else 1
    e = build(t)
    whole, tab = table(e, t, order)
    ps = comps(t)
    tabs = [table(part(q), q, order) for q in ps]
    ev = dict(whole, k="comb", t=t, order=order, ent=entmap(e.entity_dofs()), parts=[x for x, _ in tabs],
              pents=[entmap(part(q).entity_dofs()) for q in ps])
    if t["f"] == "nod":
        # coefficients of the nodal functions in those of the parts, from values at enough points
        c = geom.cellof(t)
        lat = obs.pts(geom.lattice(c, max(geom.linedeg(t), 1)), max(geom.linedeg(t), 1))
        z = (0,) * geom.dim(c)
        A = numpy.concatenate([obs.tabulate(part(q), 0, lat)[z] for q in ps])
        B = obs.tabulate(e, 0, lat)[z]
        w, *_ = numpy.linalg.lstsq(A.reshape(A.shape[0], -1).T, B.reshape(B.shape[0], -1).T, rcond=None)
        ev["w"] = [nums(w[:, i]) for i in range(w.shape[1])]
    ev["sides"] = sides(e, t, ps)
    yield ev
