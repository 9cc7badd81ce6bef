"""C14: expansions and polynomial sets."""
from itertools import product
import numpy
import geom
from core import nums
from drv_cell import fresh
from FIAT import expansions, jacobi, polynomial_set as ps
from FIAT.quadrature_schemes import create_quadrature

UFC = {"vertex": 0, "interval": 1, "triangle": 2, "tetrahedron": 3}


def name(task):
    return "%s:%s%d%s%s" % (task["kind"], task["c"], task["n"], "x".join(map(str, task["shape"])), "+".join(task["g"]))


def cost(task):
    n, d = task["n"], unitd(task["c"])
    if task["kind"] in ("expderiv", "jet", "set", "sym", "proj", "prog") and d > 1 and n:
        return ([0, 0, .03, .06][d] * 3.2 ** n) * (task["o"] or 1) * (2 if task["kind"] == "jet" else 1)
    return .1 + .02 * n * d


def leaf(task):
    return None


def cell(c):
    return fresh({"k": "simplex", "d": UFC[c]} if c in UFC else {"k": "other", "n": c})


def unitd(c):
    return UFC.get(c) if c in UFC else 1 if "Line" in c else 2 if "Triangle" in c else 3


def lattice(x, n):
    m = n + 1 if n else 2
    v = numpy.asarray(x.get_vertices(), dtype=float)
    d = len(v) - 1
    return [tuple(v[0] + sum((b[i] * (v[i + 1] - v[0]) for i in range(d)), numpy.zeros(d)) / m) for b in geom.lattice(("simplex", d), m)]


def line(d, j, L):
    base = [2 / 8., -1 / 8., 1 / 8.][:d]
    u = 16. if L > 9 else 8.
    return [tuple(base[i] + (p / u if i == j else 0.) for i in range(d)) for p in range(L + 1)]


def rows(v):
    v = numpy.asarray(v, dtype=float)
    return [nums(r) for r in v.reshape(v.shape[0], -1)]


def mset(q, x):
    if q["kind"] == "sym":
        return ps.ONSymTensorPolynomialSet(x, q["n"], q["shape"][0]) if q["shape"] else ps.ONSymTensorPolynomialSet(x, q["n"])
    return ps.ONPolynomialSet(x, q["n"], tuple(q["shape"])) if q["shape"] else ps.ONPolynomialSet(x, q["n"])


def members(M, m):
    def e(*pairs):
        r = [0] * M
        for i, b in pairs:
            r[i] += b
        return r
    return {"first": lambda: [e((0, 1))], "low": lambda: [e((i, 1)) for i in range((M + 1) // 2)],
            "evens": lambda: [e((2 * i + 1, 1)) for i in range(M // 2)], "odds": lambda: [e((2 * i, 1)) for i in range((M + 1) // 2)],
            "steps": lambda: [e((i, 1), (i + 1, -1)) for i in range(M - 1)], "ends": lambda: [e((0, 1), (M - 1, 1)), e((0, 1), (M - 1, -1))],
            "mirror": lambda: [e((i, 1), (M - 1 - i, 2)) for i in range(M // 2)], "last": lambda: [e((M - 1, 1))],
            "steep": lambda: [e((0, 1), (1, 600)), e((1, 1))]}[m]()


def observe(prop, task):
    q = {k: task[k] for k in ("kind", "c", "n", "o", "shape", "g")}
    x = cell(q["c"])
    d, n = unitd(q["c"]), q["n"]
    kind = q["kind"]
    E = expansions.get_expansion_set(x)
    ev = {"k": kind, "q": q}
    if kind == "exp":
        ev.update(nm=E.get_num_members(n), rows=rows(E.tabulate(n, lattice(x, n))), empty=len(E.tabulate(n, [])) if d else 0)
    elif kind == "gram":
        Q = create_quadrature(x, 2 * n)
        ev.update(rows=rows(E.tabulate(n, Q.get_points())), w=nums(Q.get_weights()))
    elif kind in ("expderiv", "jet"):
        ev["lines"] = []
        for j in range(d):
            p = line(d, j, n + 1)
            r = {"tab": rows(E.tabulate(n, p))}
            if kind == "jet":
                jet = E.tabulate_jet(n, p, q["o"])
                r["jet"] = [[rows(numpy.asarray(a, dtype=float)[(slice(None), slice(None)) + s]) for s in product(range(d), repeat=k)]
                            for k, a in enumerate(jet)]
            else:
                dv = E.tabulate_derivatives(n, p)
                r["v"] = rows([[y[0] for y in row] for row in dv])
                r["g"] = [rows([[y[1][i] for y in row] for row in dv]) for i in range(d)]
            ev["lines"].append(r)
    elif kind in ("set", "sym"):
        U = mset(q, x)
        pts = lattice(x, n) if d else [()]
        if not d:
            pts = [()] * 1
        v = U.tabulate(pts, q["o"])
        z = (0,) * d
        ev.update(nm=U.get_num_members(), shape=[int(i) for i in U.get_shape()], deg=U.get_degree(), emb=U.get_embedded_degree(),
                  al=[list(a) for a in v], rows=rows(v[z]), new=rows(U.tabulate_new(pts)), lines=[])
        if q["o"]:
            for j in range(d):
                t = U.tabulate(line(d, j, n + 1), q["o"])
                ev["lines"].append([rows(t[a]) for a in v])
    elif kind == "prog":
        U = mset(q, x)
        M = U.get_num_members()
        built, used = None, []
        for g in q["g"]:
            R = members(M, g)
            used += R
            if all(sorted(r) == [0] * (M - 1) + [1] for r in R):
                P = U.take([r.index(1) for r in R])
            else:
                co = numpy.tensordot(numpy.array(R, dtype=float), U.get_coeffs(), (1, 0))
                P = ps.PolynomialSet(x, n, n, U.get_expansion_set(), co, U.get_dmats())
            built = P if built is None else ps.polynomial_set_union_normalized(built, P)
        co = built.get_coeffs()
        ev.update(rows=used, co=rows(co), shape=[int(i) for i in built.get_shape()])
        yield dict(ev, k="progtab", tab=rows(built.tabulate(lattice(x, n))[(0,) * d]))
    elif kind == "proj":
        U = mset(q, x)
        a = [(3 * i + 1) % 5 - 2 for i in range(U.get_num_members())]
        Q = create_quadrature(x, 2 * n)
        ev.update(want=a, got=nums(ps.project(lambda y: float(numpy.dot(a, E.tabulate(n, [y])[:, 0])), U, Q)))
    elif kind == "jpoly":
        a, b = q["shape"]
        xs = numpy.array([[i / 8.] for i in range(-8, 9)])
        ev.update(val=rows(jacobi.eval_jacobi_batch(a, b, n, xs)), der=rows(jacobi.eval_jacobi_deriv_batch(a, b, n, xs)),
                  val1=nums([jacobi.eval_jacobi(a, b, n, y) for y in xs[:, 0]]), der1=nums([jacobi.eval_jacobi_deriv(a, b, n, y) for y in xs[:, 0]]))
    elif kind == "dims":
        ev.update(dims=[expansions.polynomial_dimension(x, i) for i in range(9)] if d else [],
                  nums=[E.get_num_members(i) for i in range(9)] if d else [],
                  mis=[[[list(t) for t in ps.mis(m, i)] for i in range(6)] for m in (1, 2, 3)])
    yield ev
