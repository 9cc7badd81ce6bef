"""C02, C21: layout of degrees of freedom, metadata."""
import FIAT
from build import build, key
import core
from core import nums


def name(task):
    return key(task["t"])


def leaf(task):
    t = task["t"]
    while t["p"]:
        t = t["p"][0]
    return t


def cost(task):
    return 0.03 + task["dim"] * 0.002 + (0.5 * core.leaf_cost(leaf(task)) if task["t"]["f"] in ("res", "nod") else 0)


def code(d):
    out = []
    for x in (d if isinstance(d, tuple) else (d,)):
        if isinstance(x, tuple):
            out.extend(code(x))
        else:
            out.append(int(x))
    return out


def entmap(m):
    return [{"c": code(d), "e": int(e), "d": [int(i) for i in dofs]} for d, es in m.items() for e, dofs in es.items()]


def cellrec(x):
    return {"v": [nums(v) for v in x.get_vertices()],
            "top": [{"c": code(d), "e": int(e), "d": [int(v) for v in vs]}
                    for d, es in x.get_topology().items() for e, vs in es.items()]}


def cellname(t):
    if t["p"]:
        if t["f"] == "tp":
            return ["prod"] + [cellname(q) for q in t["p"]]
        if t["f"] == "flat":
            return ["flat", cellname(t["p"][0])]
        return cellname(t["p"][0])
    return t["c"]


def points_of(node):
    pts = []
    if getattr(node, "pt_dict", None):
        pts += [tuple(x) for x in node.pt_dict]
    if getattr(node, "deriv_dict", None):
        pts += [tuple(x) for x in node.deriv_dict]
    return pts


def none(x):
    return -1 if x is None else int(x)


def layout(t, e):
    nodes = e.dual_basis()
    sup = []
    for i, n in enumerate(nodes):
        pts = points_of(n)
        if pts:
            sup.append({"i": i, "x": [nums(x) for x in pts[:8]]})
    return {"k": "layout", "t": t, "dim": int(e.space_dimension()), "nnodes": len(nodes),
            "ent": entmap(e.entity_dofs()), "clo": entmap(e.entity_closure_dofs()), "sup": sup}


def meta(t, e):
    try:
        deg = none(e.degree()) if t["f"] != "mix" else -1
    except NotImplementedError:
        deg = -1
    try:
        order = none(e.get_order()) if isinstance(e.get_order(), int) else -1
    except NotImplementedError:
        order = -1
    return {"k": "meta", "t": t, "vs": [int(x) for x in e.value_shape()], "maps": list(e.mapping()),
            "fd": none(e.get_formdegree()), "deg": deg, "ord": order, "nod": bool(e.is_nodal()),
            "sub": int(e.num_sub_elements()), "cell": cellrec(e.get_reference_element()), "dim": int(e.space_dimension())}


def observe(prop, task):
    t = task["t"]
    if prop == "C02":
        yield layout(t, build(t))
    else:
        cls = dict(FIAT.extra_elements, **FIAT.supported_elements)[task["nm"]] if task["nm"] else None   # by the name the specification gives it
        yield meta(t, build(t, cls=cls))
