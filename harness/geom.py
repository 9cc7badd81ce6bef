"""Cells as in Cells.tla (the specification re-derives everything and compares)."""
from functools import lru_cache
from itertools import combinations, product


def S(d):
    return ("simplex", d)


NAMES = {"vertex": S(0), "interval": S(1), "triangle": S(2), "tetrahedron": S(3),
         "quadrilateral": ("flat", ("prod", S(1), S(1))), "hexahedron": ("flat", ("prod", S(1), S(1), S(1)))}


def parse(name):
    name = name.strip()
    if name in NAMES:
        return NAMES[name]
    parts, depth, cur = [], 0, ""
    for ch in name:
        depth += (ch == "(") - (ch == ")")
        if ch == "*" and depth == 0:
            parts.append(cur.strip())
            cur = ""
        else:
            cur += ch
    parts.append(cur.strip())
    if len(parts) == 1:
        return parse(name[1:-1])
    return ("prod",) + tuple(parse(p) for p in parts)


def cellof(t):
    if t["p"]:
        if t["f"] == "tp":
            return ("prod",) + tuple(cellof(q) for q in t["p"])
        if t["f"] == "flat":
            return ("flat", cellof(t["p"][0]))
        return cellof(t["p"][0])
    return parse(t["c"])


@lru_cache(None)
def dim(c):
    return c[1] if c[0] == "simplex" else sum(dim(q) for q in c[1:])


@lru_cache(None)
def width(c):
    return 1 if c[0] != "prod" else sum(width(q) for q in c[1:])


@lru_cache(None)
def codes(c):
    if c[0] != "prod":
        return tuple((i,) for i in range(dim(c) + 1))
    return tuple(sum(x, ()) for x in product(*[codes(q) for q in c[1:]]))


@lru_cache(None)
def verts(c):
    if c[0] == "simplex":
        return tuple(tuple(1 if i == v - 1 else 0 for i in range(c[1])) for v in range(c[1] + 1))
    if c[0] == "flat":
        return verts(c[1])
    return tuple(sum(x, ()) for x in product(*[verts(q) for q in c[1:]]))


def splitcode(cs, code):
    out, i = [], 0
    for q in cs:
        out.append(tuple(code[i:i + width(q)]))
        i += width(q)
    return out


@lru_cache(None)
def ents(c, code):
    if c[0] == "simplex":
        s = list(combinations(range(c[1] + 1), code[0] + 1))
        return tuple(s if code[0] == 0 else s[::-1])
    if c[0] == "flat":
        return sum((ents(c[1], q) for q in codes(c[1]) if sum(q) == code[0]), ())
    parts = splitcode(c[1:], code)
    nv = [len(verts(q)) for q in c[1:]]
    out = []
    for tup in product(*[ents(q, p) for q, p in zip(c[1:], parts)]):
        vs = []
        for t in product(*tup):
            acc = 0
            for n, x in zip(nv, t):
                acc = acc * n + x
            vs.append(acc)
        out.append(tuple(vs))
    return tuple(out)


def entlist(c):
    return [(q, e) for q in codes(c) for e in range(len(ents(c, q)))]


def unflatten(p, d, e):
    for q in codes(p):
        if sum(q) == d:
            n = len(ents(p, q))
            if e < n:
                return q, e
            e -= n


def splitnum(ns, e):
    out = []
    for n in reversed(ns):
        out.append(e % n)
        e //= n
    return out[::-1]


def embed(c, code, e, x, m):
    if c[0] == "simplex":
        vs = [verts(c)[v] for v in ents(c, tuple(code))[e]]
        return tuple(m * vs[0][j] + sum(x[i] * (vs[i + 1][j] - vs[0][j]) for i in range(len(x))) for j in range(c[1]))
    if c[0] == "flat":
        q, f = unflatten(c[1], code[0], e)
        return embed(c[1], q, f, x, m)
    parts = splitcode(c[1:], code)
    ns = splitnum([len(ents(q, p)) for q, p in zip(c[1:], parts)], e)
    out, i = (), 0
    for q, p, n in zip(c[1:], parts, ns):
        w = sum(p)
        out += embed(q, p, n, x[i:i + w], m)
        i += w
    return out


@lru_cache(None)
def lattice(c, m):
    if c[0] == "flat":
        return lattice(c[1], m)
    if c[0] == "prod":
        return tuple(sum(x, ()) for x in product(*[lattice(q, m) for q in c[1:]]))

    def lat(d, k):
        if d == 0:
            return [()]
        return [(i,) + r for i in range(k + 1) for r in lat(d - 1, k - i)]
    return tuple(lat(c[1], m))


def entcell(c, code):
    if c[0] == "simplex":
        return S(code[0])
    if c[0] == "flat":
        return [S(0), S(1), NAMES["quadrilateral"], NAMES["hexahedron"]][code[0]]
    return ("prod",) + tuple(entcell(q, p) for q, p in zip(c[1:], splitcode(c[1:], code)))


def fiatdim(c, code):
    """A dimension code as FIAT nests it."""
    if c[0] != "prod":
        return code[0]
    return tuple(fiatdim(q, p) for q, p in zip(c[1:], splitcode(c[1:], code)))


def tojson(c):
    if c[0] == "simplex":
        return {"k": "simplex", "d": c[1]}
    return {"k": c[0], "c": [tojson(q) for q in c[1:]]}


def linedeg(t):
    """LineDeg of Families.tla."""
    if t["f"] == "tp":
        return linedeg(t["p"][0]) + linedeg(t["p"][1])
    if t["p"]:
        return max(linedeg(q) for q in t["p"])
    d = dim(parse(t["c"]))
    if t["f"] == "KMV":
        return (1, 3, 4, 5, 7)[t["k"] - 1] if d == 2 else (1, 4, 5)[t["k"] - 1]
    if t["f"] == "S":
        return t["k"] if d == 1 else t["k"] + 1
    if t["f"] == "P0":
        return 0
    if t["f"] == "Trace" and t["v"]:
        return max(int(s) for s in t["v"].split(","))
    return t["k"]


def mis(d, n):
    if d == 0:
        return [()] if n == 0 else []
    if d == 1:
        return [(n,)]
    return [(n - i,) + r for i in range(n + 1) for r in mis(d - 1, i)]
