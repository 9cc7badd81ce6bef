"""C16: sessions.  Every session runs in a process of its own; what each element answers is compared with
what it answers in a process that has done nothing else."""
import json
import os
import numpy
import sympy
import core
import geom
import obs
from build import build, combine, convention, key
from core import nums
from FIAT.finite_element import entity_support_dofs
from drv_meta import code, leaf as leaf_

NREQ = 13
GEN = {0: [()], 1: [(1,), (7,), (4,), (12,), (0,)], 2: [(1, 2), (4, 3), (2, 7), (0, 5), (6, 6)],
       3: [(1, 2, 3), (4, 1, 2), (2, 5, 1), (0, 3, 4), (1, 1, 1)]}


def name(task):
    parts = ["%s%s" % (key(t), x and "@" + x) for t, x in zip(task["subs"], task["convs"])]
    return "%s/%d" % ("+".join(parts[-1:] if task["subs"][-1]["p"] else parts), task["stride"])


def cost(task):
    return .1 + .05 * len(task["subs"])


def leaf(task):
    return leaf_({"t": task["subs"][-1]})


def spts(c, which):
    """A few points of a cell."""
    if c[0] == "simplex":
        return [GEN[c[1]][i % len(GEN[c[1]])] for i in which]
    if c[0] == "flat":
        return spts(c[1], which)
    cols = [spts(q, [i + j for i in which]) for j, q in enumerate(c[1:])]
    return [sum(x, ()) for x in zip(*cols)]


def checksum(arrays):
    """Four linear combinations of all numbers, and their size."""
    a = numpy.concatenate([numpy.zeros(1)] + [numpy.asarray(x, dtype=float).ravel() for x in arrays])
    i = numpy.arange(a.size)
    out = [float(numpy.dot(a, ((i * m + 13) % 101 - 50) / 50.)) for m in (7919, 104729, 31, 1)]
    return {"v": nums(out), "m": nums([numpy.abs(a).max() if a.size else 0.])[0]}


def table(tab, shapes=True):
    ks = sorted(tab)
    return dict(checksum([tab[k] for k in ks]), s=json.dumps([[list(k), list(numpy.shape(tab[k]))] for k in ks]))


def dofs(d):
    return {"v": [], "m": [0, 0], "s": json.dumps(sorted([code(q), int(e), [int(i) for i in ids]] for q, es in d.items() for e, ids in es.items()))}


def ask(e, t, r, plain=False):
    try:
        return ask_(e, t, r, plain)
    except (MemoryError, core.CheckError):
        raise
    except Exception as exc:
        return {"v": [], "m": [0, 0], "s": "raises %s" % type(exc).__name__}


def ask_(e, t, r, plain):
    c = geom.cellof(t)
    A, B, one = [obs.pts(spts(c, w), 12) for w in ([0, 1], [2, 3, 0], [1])]
    trace = t["f"] == "Trace"
    if trace and r in (0, 1, 2, 3, 10):
        fd = geom.dim(c) - 1
        d, = [q for q in e.get_reference_element().get_topology() if sum(code(q)) == fd][:1] or [None]
        sub = e.get_reference_element().construct_subelement(d)
        p = [tuple(x) for x in numpy.asarray(sub.get_vertices(), dtype=float) * .5 + .1]
        out = table(raw(e, 0, p, (d, 0)))
        if r == 10 and not plain:
            scribble(e.tabulate(0, p, (d, 0)))
        return out
    if r == 0:
        return table(obs.tabulate(e, 0, A))
    if r == 1:
        return table(obs.tabulate(e, 1, A))
    if r == 2:
        return table(obs.tabulate(e, 0, B))
    if r == 3:
        return table(obs.tabulate(e, 2, one))
    if r == 4:
        return dofs(e.entity_dofs())
    if r == 5:
        return dofs(e.entity_closure_dofs())
    if r == 6:
        return cellsays(e)
    if r == 7:
        nodes = e.dual_basis()
        data, txt = [], []
        for L in nodes:
            if L is None or L.pt_dict is None:
                txt.append("undefined")
                continue
            txt.append([str(L.target_shape), int(L.max_deriv_order), len(L.pt_dict), len(L.deriv_dict)])
            for p, wc in L.pt_dict.items():
                data.append(list(p) + [w for w, _ in wc])
                txt.append([list(map(int, k)) for _, k in wc])
            for p, wac in L.deriv_dict.items():
                data.append(list(p) + [w for w, _, _ in wac])
                txt.append([[list(map(int, a)), list(map(int, k))] for _, a, k in wac])
        return dict(checksum(data), s=json.dumps(txt))
    if r == 8:
        m = [e.space_dimension(), list(e.value_shape()), str(e.mapping()), e.get_formdegree(), e.get_order(), bool(e.is_nodal())]
        for f in ("degree", "num_sub_elements", "get_nodal_basis", "get_coeffs"):
            try:
                x = getattr(e, f)()
                m.append(x if isinstance(x, int) else type(x).__name__)
            except Exception as exc:
                m.append(type(exc).__name__)
        return {"v": [], "m": [0, 0], "s": json.dumps(m, default=str)}
    if r == 9:
        p, ent = onfacet(e, c)
        return table(raw(e, 0, p, ent))
    if r == 10:
        if plain:
            return table(obs.tabulate(e, 1, A))
        # the caller owns the points it gave and the tables it got
        buf = numpy.array(obs.pts(spts(c, [2, 3]), 12))
        scribble(e.tabulate(1, buf))
        buf[...] = numpy.array(A)
        out = {obs.norm_alpha(k): numpy.array(v, dtype=float) for k, v in e.tabulate(1, buf).items()}
        for k, v in out.items():
            out[k] = v.reshape(v.shape[0], -1, v.shape[-1])
        scribble(e.tabulate(1, buf))
        scribble(e.tabulate(1, A))
        scribble(e.tabulate(0, A))
        scribble(e.tabulate(0, B))
        scribble(e.tabulate(0, *onfacet(e, c)))
        return table(out)
    if r == 11:
        return dict(checksum([e.get_dual_set().to_riesz(e.get_nodal_basis()), e.get_coeffs()]), s="")
    if r == 12:
        top = e.get_reference_element().get_topology()
        return dofs({q: entity_support_dofs(e, q) for q in sorted(top)[-2:]})
    raise KeyError(r)


def onfacet(e, c):
    """Points on the last facet."""
    x = e.get_reference_element()
    top = x.get_topology()
    d = sorted(q for q in top if sum(code(q)) == geom.dim(c) - 1)[-1]
    sub = x.construct_subelement(d)
    p = [tuple(v) for v in numpy.asarray(sub.get_vertices(), dtype=float).reshape(len(sub.get_vertices()), -1) * .5 + .1]
    return p, (d, max(top[d]))


def scribble(tab):
    for v in tab.values():
        if isinstance(v, numpy.ndarray) and v.flags.writeable:
            v[...] = 7.


def raw(e, order, p, ent):
    return {obs.norm_alpha(k): v for k, v in e.tabulate(order, p, ent).items()}


def cellsays(e):
    x = e.get_reference_element()
    v = [numpy.asarray(x.get_vertices(), dtype=float)]
    top = sorted([code(q), int(n), [int(i) for i in vs]] for q, es in x.get_topology().items() for n, vs in es.items())
    for q in x.get_topology():
        for n in x.get_topology()[q]:
            tr = x.get_entity_transform(q, n)
            sub = numpy.asarray(x.construct_subelement(q).get_vertices(), dtype=float)
            v += [numpy.asarray(tr(tuple(p)), dtype=float) for p in sub.reshape(len(sub), -1)]
    return dict(checksum(v), s=json.dumps(top))


def forked(fn):
    """The value of fn() in a child process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        ok = 1
        try:
            os.close(r)
            try:
                out = {"ok": fn()}
            except Exception as exc:
                import traceback
                out = {"exc": "%s: %s" % (type(exc).__name__, str(exc)[:300]), "tb": traceback.format_exc()[-1500:]}
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(out))
            ok = 0
        finally:
            os._exit(ok)
    os.close(w)
    with os.fdopen(r) as f:
        s = f.read()
    os.waitpid(pid, 0)
    if not s:
        raise core.CheckError("a session died")
    out = json.loads(s)
    if "exc" in out:
        raise RuntimeError(out["exc"])
    return out["ok"]


def warm():
    """Load what sympy loads lazily, so that not every process does it."""
    x, y = sympy.symbols("x y")
    f = (x * (x - 1) / 2 + 3 * x * y * (y + 1)) ** 2
    for g in (f, sympy.diff(f, x, y), sympy.Matrix([f, x, 1]), sympy.legendre(3, 2 * x - 1)):
        sympy.lambdify((x, y), g, "numpy")(.5, .25)
    sympy.simplify(sympy.expand(f)), sympy.integrate(sympy.legendre(2, x), x), sympy.factor(sympy.expand(f))
    return True


WARM = warm()

_fresh = {}


def answers(e, t):
    # few questions per process, in an order no session has: what one spoils for another shows in some session
    got = {}
    for g in range(2):
        rs = list(range(g, NREQ, 2))[::-1]
        got.update(zip(rs, forked(lambda: [ask(e, t, r, True) for r in rs])))
    return [got[r] for r in range(NREQ)]


def on(t, x):
    """An element on the simplices of the convention x."""
    if not x:
        return build(t)
    with convention(x):
        return build(t)


def fresh(t, x):
    k = json.dumps([t, x])
    if k not in _fresh:
        _fresh[k] = forked(lambda: answers(on(t, x), t))
    return _fresh[k]


def made(t, pool, subs, x=""):
    return combine(t["f"], [pool[subs.index(q)] for q in t["p"]], t["v"]) if t["p"] else on(t, x)


def session(task, leaves):
    subs, pool, steps = task["subs"], {}, []
    for s in task["steps"]:
        t = subs[s["i"]]
        if s["op"] == "make":
            pool[s["i"]] = leaves.get(s["i"]) or made(t, pool, subs, task["convs"][s["i"]])
            steps.append(dict(s, got={"v": [], "m": [0, 0], "s": ""}))
        else:
            steps.append(dict(s, got=ask(pool[s["i"]], t, s["r"])))
    return steps


def whole(task):
    """One composed element: its leaves are built once, then one process per session and per element alone."""
    subs = task["subs"]
    leaves = {i: build(t) for i, t in enumerate(subs) if not t["p"]}

    def alone(i):
        pool = dict(leaves)
        for j in range(i + 1):
            if j not in pool:
                pool[j] = made(subs[j], pool, subs)
        return answers(pool[i], subs[i])
    out = []
    for i, t in enumerate(subs):
        k = json.dumps([t, ""])
        if k not in _fresh:
            _fresh[k] = forked(lambda: alone(i))
        out.append(_fresh[k])
    return [out, forked(lambda: session(task, leaves))]


def observe(prop, task):
    subs = task["subs"]
    if subs[-1]["p"]:
        alone, steps = forked(lambda: whole(task))
        _fresh.update((json.dumps([t, ""]), a) for t, a in zip(subs, alone))
    else:
        steps, alone = forked(lambda: session(task, {})), [fresh(t, x) for t, x in zip(subs, task["convs"])]
    yield {"k": "hist", "subs": subs, "fresh": alone, "steps": steps}
