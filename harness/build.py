"""Terms of the specification -> FIAT objects (public API only)."""
import warnings
from contextlib import contextmanager
warnings.showwarning = lambda *a, **k: None
import FIAT                                                    # noqa: E402
from FIAT import reference_element                             # noqa: E402
from FIAT.reference_element import (ufc_simplex, ufc_cell, TensorProductCell,      # noqa: E402
                                    UFCQuadrilateral, UFCHexahedron)
from FIAT.tensor_product import FlattenedDimensions            # noqa: E402

_cells = {}


def make_cell(name):
    """A fresh reference cell from its specification name."""
    if name.startswith("("):
        depth = 0
        for i, ch in enumerate(name):
            depth += (ch == "(") - (ch == ")")
            if depth == 0:
                break
        left, rest = name[1:i], name[i + 1:].strip()
        if not rest:
            return make_cell(left)
        return TensorProductCell(make_cell(left), make_cell(rest[2:]))
    if " * " in name:
        parts, depth, cur = [], 0, ""
        for ch in name:
            depth += (ch == "(") - (ch == ")")
            if ch == "*" and depth == 0:
                parts.append(cur.strip())
                cur = ""
            else:
                cur += ch
        parts.append(cur.strip())
        return TensorProductCell(*[make_cell(p) for p in parts])
    return {"vertex": lambda: ufc_simplex(0), "interval": lambda: ufc_simplex(1),
            "triangle": lambda: ufc_simplex(2), "tetrahedron": lambda: ufc_simplex(3),
            "quadrilateral": UFCQuadrilateral, "hexahedron": UFCHexahedron}[name]()


_convention = {}                      # names of simplices -> class of reference_element to use for them


@contextmanager
def convention(x):
    """Build on the simplices of another convention: the name of a class of FIAT.reference_element."""
    name = "interval" if "Line" in x else "triangle" if "Triangle" in x else "tetrahedron"
    _convention[name] = x
    try:
        yield
    finally:
        _convention.clear()


def cell(name):
    x = _convention.get(name, name)
    if x not in _cells:
        _cells[x] = getattr(reference_element, x)() if x != name else make_cell(name)
    return _cells[x]


CLS = {"P0": FIAT.P0, "CG": FIAT.Lagrange, "DG": FIAT.DiscontinuousLagrange, "Bern": FIAT.Bernstein,
       "GLL": FIAT.GaussLobattoLegendre, "GL": FIAT.GaussLegendre, "GR": FIAT.GaussRadau,
       "Taylor": FIAT.DiscontinuousTaylor, "CR": FIAT.CrouzeixRaviart, "RT": FIAT.RaviartThomas,
       "DRT": FIAT.DiscontinuousRaviartThomas, "BDM": FIAT.BrezziDouglasMarini,
       "BDFM": FIAT.BrezziDouglasFortinMarini, "N1": FIAT.Nedelec, "N2": FIAT.NedelecSecondKind,
       "Regge": FIAT.Regge, "HHJ": FIAT.HellanHerrmannJohnson, "Herm": FIAT.CubicHermite, "Arg": FIAT.Argyris,
       "QArg": FIAT.QuinticArgyris, "Bell": FIAT.Bell, "Morley": FIAT.Morley, "KMV": FIAT.KongMulderVeldhuizen,
       "AWc": FIAT.ArnoldWinther, "AWnc": FIAT.ArnoldWintherNC, "MTW": FIAT.MardalTaiWinther,
       "Bub": FIAT.Bubble, "FBub": FIAT.FacetBubble, "S": FIAT.Serendipity, "DPC": FIAT.DPC,
       "Trace": FIAT.HDivTrace}
NODEG = {"P0", "QArg", "Bell", "Morley"}
ELEMENT_NAME = {"QArg": "Quintic Argyris"}


def combine(f, parts, v=""):
    if f == "tp":
        return FIAT.TensorProductElement(*parts)
    if f == "flat":
        return FlattenedDimensions(parts[0])
    if f == "enr":
        return FIAT.EnrichedElement(*parts)
    if f == "nod":
        return FIAT.NodalEnrichedElement(*parts)
    if f == "res":
        return FIAT.RestrictedElement(parts[0], restriction_domain=v)
    if f == "brk":
        return FIAT.DiscontinuousElement(parts[0])
    if f == "mix":
        return FIAT.MixedElement(parts)
    if f == "hdiv":
        return FIAT.Hdiv(parts[0])
    if f == "hcurl":
        return FIAT.Hcurl(parts[0])
    raise KeyError(f)


_memo = {}


def part(t):
    """A shared element object for use inside others."""
    k = (key(t), *_convention.values())
    if k not in _memo:
        _memo[k] = build(t)
    return _memo[k]


def build(t, shared=True, cls=None):
    """The FIAT element of a term; shared: reuse one cell object per name; cls: what to build it with."""
    get = cell if shared else make_cell
    if t["p"]:
        parts = [part(q) for q in t["p"]]
        return cls(*parts) if cls else combine(t["f"], parts, t["v"])
    cls = cls or CLS[t["f"]]
    c = get(t["c"])
    k = t["k"]
    if t["f"] == "Trace" and t["v"]:
        k = tuple(int(s) for s in t["v"].split(","))
        return cls(c, k)
    if t["f"] in NODEG:
        return cls(c)
    if t["v"]:
        return cls(c, k, variant=t["v"])
    return cls(c, k)


def key(t):
    """Readable name of a term."""
    if t["p"]:
        inner = ",".join(key(q) for q in t["p"])
        return "%s[%s](%s)" % (t["f"], t["v"], inner) if t["v"] else "%s(%s)" % (t["f"], inner)
    short = {"interval": "I", "triangle": "T", "tetrahedron": "K", "quadrilateral": "Q", "hexahedron": "H"}
    return "%s:%s%d%s" % (t["f"], short.get(t["c"], t["c"].replace(" ", "")), t["k"],
                          ("/" + t["v"]) if t["v"] else "")
