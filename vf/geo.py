"""Symbolic geometry: points and polygons given by their coordinates, tables of geometries, clipping (assumed contracts of
shapely and geopandas)."""
import geopandas as gpd
import pandas as pd
import z3
from shapely import geometry as geo
from . import core, seq
from .core import Sym, Num, Unsupported, ctx, mkb, subst, equal, zb
from .seq import Seq, FSeq
from .interp import MODELS, METHOD_MODELS, is_sym
from .tables import TFrame, fresh_fn, put

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
INSIDE = z3.Function("region_meets", I, I, B)     # table, row: the mask meets the geometry of the row


class GPoint(Sym):
    def __init__(self, *c):
        self.c = list(c[0]) if len(c) == 1 and isinstance(c[0], (tuple, list)) else list(c)

    def _subst(self, p):
        return GPoint(*[subst(x, p) for x in self.c])

    def _equal(self, o):
        return z3.And(*[equal(a, b) for a, b in zip(self.c, o.c)]) if isinstance(o, GPoint) and len(o.c) == len(self.c) else z3.BoolVal(False)

    @property
    def x(self):
        return self.c[0]

    @property
    def y(self):
        return self.c[1]

    @property
    def z(self):
        return self.c[2]

    @property
    def geom_type(self):
        return "Point"

    def _isinstance(self, c):
        return c is geo.Point


class GPoly(Sym):
    def __init__(self, shell, holes=()):
        self.shell, self.holes = list(shell), [list(h) for h in holes]

    def _subst(self, p):
        return GPoly([tuple(subst(x, p) for x in c) for c in self.shell], [[tuple(subst(x, p) for x in c) for c in h] for h in self.holes])

    def _isinstance(self, c):
        return c is geo.Polygon


class GOp(Sym):
    """a geometry made from another: clipped to a mask, or its convex hull."""

    def __init__(self, op, g, by=None):
        self.op, self.g, self.by = op, g, by

    def _subst(self, p):
        return GOp(self.op, subst(self.g, p), self.by)


def boxed(g):
    """(west, south, east, north) of a polygon whose corners are those of an axis-parallel box, and the condition that it is."""
    cs = g.shell
    zr = core.zr
    pts = [(zr(c[0]), zr(c[1])) for c in cs]
    mn = lambda L: _fold(L, lambda a, b: z3.If(a <= b, a, b))
    mx = lambda L: _fold(L, lambda a, b: z3.If(a >= b, a, b))
    # opposite corners: the first vertex and the one differing in both coordinates
    w, e, s, n = mn([p[0] for p in pts]), mx([p[0] for p in pts]), mn([p[1] for p in pts]), mx([p[1] for p in pts])
    return w, s, e, n


def _fold(L, f):
    r = L[0]
    for x in L[1:]:
        r = f(r, x)
    return r


def is_box(g, w, s, e, n):
    """condition: g is the closed ring around the box w..e, s..n (either orientation, any first corner)."""
    zr = core.zr
    pts = [(zr(c[0]), zr(c[1])) for c in g.shell]
    alts = []
    if g.holes or len(pts) not in (4, 5):
        return z3.BoolVal(False)
    base = [(e, s), (e, n), (w, n), (w, s)]
    for rot in range(4):
        for dr in (1, -1):
            ring = [base[(rot + dr * k) % 4] for k in range(4)]
            ring = ring + ring[:1] if len(pts) == 5 else ring
            alts.append(z3.And(*[z3.And(p[0] == q[0], p[1] == q[1]) for p, q in zip(pts, ring)]))
    return z3.Or(*alts)


_gdf = MODELS[gpd.GeoDataFrame]


def _frame(interp, args, kw):
    x = args[0] if args else kw.get("data")
    if isinstance(x, dict) and any(isinstance(c, Seq) for c in x.values()):
        cols = dict(x)
        for k in kw:
            if k not in ("crs", "data", "geometry"):
                raise Unsupported("table options")
        if "geometry" in kw:
            cols["geometry"] = kw["geometry"]
        if not all(isinstance(c, Seq) for c in cols.values()):
            raise Unsupported("table of mixed columns")
        n = next(iter(cols.values())).n
        for c in cols.values():
            core.oblig("columns of one length", c.n == n)
        ctx.trust("geopandas: a table built from columns has one row per element, in order")
        f = TFrame(n, {k: c.get for k, c in cols.items()}, "range")
        f.source = cols
        return f
    return _gdf(interp, args, kw)


MODELS[gpd.GeoDataFrame] = _frame


def _clip(interp, args, kw):
    fr = args[0]
    if not isinstance(fr, TFrame):
        return NotImplemented
    mask = args[1] if len(args) > 1 else kw["mask"]
    if set(kw) - {"mask", "sort"}:
        raise Unsupported("clip options")
    ctx.trust("geopandas clip: exactly the rows whose geometry meets the mask, points unchanged and polygons cut to the mask (order not relied on)")
    meets = fresh_fn("meets", I, B)
    s = FSeq(fr.n, lambda j: mkb(meets(j)), lambda j: Num(j))
    cut = lambda g: g if isinstance(g, GPoint) else GOp("clip", g, mask)
    cols = {k: (lambda j, c=c, k=k: cut(c(s.src(j))) if k == "geometry" else c(s.src(j))) for k, c in fr.cols.items()}
    s._ensure()
    r = TFrame(s.n, cols)
    r.clipped = (fr, s, meets, mask)
    return r


MODELS[gpd.clip] = _clip
MODELS[geo.Point] = lambda interp, args, kw: GPoint(*args) if any(is_sym(x) for x in args) else NotImplemented
MODELS[geo.Polygon] = lambda interp, args, kw: GPoly(*args) if args and isinstance(args[0], list) and is_sym(args[0]) else NotImplemented



def _setattr(self, name, v):
    if name in self.cols and isinstance(v, Seq):
        self.cols[name] = v.get
    else:
        raise Unsupported("table attribute")


TFrame._setattr = _setattr
Seq.convex_hull = property(lambda s: Seq(s.n, lambda j: GOp("hull", s.get(j)), True))
