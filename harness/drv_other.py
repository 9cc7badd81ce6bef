"""C24: elements on simplices of another convention, observed through points mapped from the UFC simplex."""
import numpy
import core
import drv_meta
import drv_nodes
import drv_tab
import drv_trace
from build import build, convention, key
from FIAT.reference_element import ufc_simplex
from drv_meta import leaf                                             # noqa: F401


def name(task):
    return key(task["t"]) + "@" + task["x"]


def cost(task):
    return .1 + sum(f(task["dim"] and task, task["t"]) for f in drv_tab.COST.values()) + core.leaf_cost(leaf(task))


class Seen:
    """An element seen from the UFC simplex: points are mapped, entities and functionals are its own."""

    def __init__(self, e, s):
        self._e, self._s = e, s

    def tabulate(self, order, points, entity=None):
        if entity is None:
            return self._e.tabulate(order, [tuple(self._s * x + (1 - self._s) for x in p) for p in points])
        return self._e.tabulate(order, *self.on(entity, points))

    def back(self, p):
        return tuple((x - (1 - self._s)) / self._s for x in p)

    def numbers(self, d):
        """Numbers of the entities of the other simplex, by the numbers they have on the UFC simplex."""
        mine = {tuple(sorted(vs)): n for n, vs in self._e.get_reference_element().get_topology()[d].items()}
        ufc = ufc_simplex(self._e.get_reference_element().get_spatial_dimension()).get_topology()[d]
        return {n: mine[tuple(sorted(vs))] for n, vs in ufc.items()}

    def on(self, entity, points):
        """A point has the same barycentric coordinates in both facets, by vertex."""
        d, n = entity
        m = self.numbers(d)[n]
        cell = self._e.get_reference_element()
        ufc = ufc_simplex(cell.get_spatial_dimension()).get_topology()[d][n]
        order = [ufc.index(v) for v in cell.get_topology()[d][m]]
        corners = numpy.array(cell.construct_subelement(d).get_vertices(), dtype=float).reshape(d + 1, d)
        out = []
        for p in points:
            bary = [1 - sum(p)] + list(p)
            out.append(tuple(sum((bary[j] * v for j, v in zip(order, corners)), numpy.zeros(d))))
        return out, (d, m)

    def __getattr__(self, a):
        return getattr(self._e, a)


class Facets(Seen):
    """For elements that live on facets: dofs by the numbers of the UFC simplex as well."""

    def entity_dofs(self):
        dofs = self._e.entity_dofs()
        return {d: {n: dofs[d][m] for n, m in self.numbers(d).items()} for d in dofs}


def observe(prop, task):
    t, x = task["t"], task["x"]
    evs = []
    with convention(x):
        e = build(t)
        seen = Seen(e, 2 if x.startswith("Default") else 1)
        evs += [drv_meta.layout(t, e), drv_meta.meta(t, e)]
        if t["f"] == "Trace":
            nodes = [seen.back(drv_meta.points_of(n)[0]) for n in e.dual_basis()]
            return [{"k": "other", "x": x, "t": t, "sub": ev} for ev in evs + list(drv_trace.observe(prop, task, Facets(e, seen._s), nodes))]
        if t["f"] != "mix":
            evs += drv_nodes.support(task, e, seen)
        if t["f"] == "Bern":
            evs += drv_nodes.bern(task, seen)
        if t["f"] in ("CG", "DG", "GL", "GLL", "GR"):
            evs += drv_nodes.nodes(task, e)
        if task["dual"]:
            evs += drv_tab.dual(task, e)
        evs += drv_tab.deriv(task, seen)
        if not t["p"] and t["f"] != "FBub":
            evs += drv_tab.span(task, seen)
        if task["claim"] and t["f"] != "mix":
            evs += drv_tab.traces("conform", task, seen)
    return [{"k": "other", "x": x, "t": t, "sub": ev} for ev in evs]
