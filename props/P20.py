"""P20 splitting polygons at the antimeridian and the poles."""
import math
import numpy as np
import geopandas as gpd
import z3
from shapely import geometry as geo
from shapely.prepared import prep
from vf import core, seq, parts as pt
from vf.core import Num, Sym, Unsupported, SymRaise, equal, zr, ctx
from vf.seq import Seq, FSeq, zi
from vf.interp import SObj, MODELS, METHOD_MODELS, CONTRACTS, LOOP_RULES, is_sym
from vf.session import Fail, Skip, expect, expect_close
from tatc import utils
from tatc.utils import split_polygon, normalize_geometry, project_polygon_to_elevation

ASSUMPTIONS = ["shapely: split cuts a valid polygon along the line into pieces that cover it, with all pieces on one side of the line each; crosses, contains, is_valid, make_valid, bounds",
               "reflecting or translating a valid polygon leaves it valid", "numpy: cumsum, sort and interp by their definitions",
               "no piece of a split is flat (of zero area)",
               "numpy mean, list sort, geopandas tables of geometries and apply along rows",
               "bounded, evaluated at run time only: the turns of holes across the antimeridian; that the cap drawn for a ring around a pole is the region the ring encloses (its vertices, edges, pole and holes are proved)"]


def wrap(x):
    return x if -180 <= x <= 180 else (x + 180) % 360 - 180


def unwrap(ring):
    """the ring with jumps of more than half a turn undone."""
    out = [tuple(ring[0])]
    for a, b in zip(ring, ring[1:]):
        d = b[0] - a[0]
        d = d - 360 if d > 180 else d + 360 if d < -180 else d
        out.append((out[-1][0] + d, b[1]))
    return out


class Region:
    """The region of the globe that a polygon stands for, from the definition."""

    def __init__(self, shell, holes):
        r = list(shell)
        if r[0] != r[-1]:
            r = r + [r[0]]
        u = unwrap(r)
        turn = u[-1][0] - u[0][0]
        self.pole = None
        if abs(turn) > 180:
            self.pole = 1 if np.mean([p[1] for p in r[:-1]]) > 0 else -1
            u = u[:-1] if turn > 0 else u[:-1][::-1]
            self.u = u
            self.holes = [geo.Polygon(h) for h in holes]
            pts = sorted((p[0] % 360, p[1]) for p in u)
            self.lon = [pts[-1][0] - 360] + [p[0] for p in pts] + [pts[0][0] + 360]
            self.lat = [pts[-1][1]] + [p[1] for p in pts] + [pts[0][1]]
            return
        P = geo.Polygon(u)
        hs = []
        for h in holes:
            h = list(h)
            hu = unwrap(h + [h[0]] if h[0] != h[-1] else h)
            # the copy of the hole inside the shell
            for k in (0, 360, -360, 720, -720):
                c = [(x + k, y) for x, y in hu]
                if P.buffer(1e-6).contains(geo.Polygon(c)):
                    hs.append(c)
                    break
            else:
                raise Skip("hole outside")
        self.P = geo.Polygon(u, hs)
        if not self.P.is_valid:
            raise Skip("invalid input")

    def meets(self, x, y):
        """True / False, or None near the boundary."""
        if self.pole:
            l = np.interp(x % 360, self.lon, self.lat)
            if abs(y - l) < 1e-3:
                return None
            if (y > l) != (self.pole > 0):
                return False
            for h in self.holes:
                for k in (0, 360, -360):
                    q = geo.Point(x + k, y)
                    if h.boundary.distance(q) < 1e-6:
                        return None
                    if h.contains(q):
                        return False
            return True
        hit = False
        for k in (-720, -360, 0, 360, 720):
            for q in ((x + k, y), (x + k + 180, 180 - y), (x + k + 180, -180 - y)):
                q = geo.Point(q)
                if self.P.boundary.distance(q) < 1e-6:
                    return None
                hit = hit or self.P.contains(q)
        return hit


def parts(g):
    return list(g.geoms) if hasattr(g, "geoms") else [g]


def build(polys):
    L = [geo.Polygon(s, h) for s, h in polys]
    return L[0] if len(L) == 1 else geo.MultiPolygon(L)


def check_split(i):
    p = build(i["polys"])
    regs = [Region([tuple(c) for c in s], [[tuple(c) for c in h] for h in hs]) for s, hs in i["polys"]]
    before = p.wkt
    out = split_polygon(p)
    expect(p.wkt == before, "the polygon given was changed", "frame")
    judge(out, regs, i, "split")
    inr = all(-180 <= x <= 180 and -90 <= y <= 90 for s, _ in i["polys"] for x, y in s)
    crosses = any(abs(b[0] - a[0]) >= 180 for s, _ in i["polys"] for a, b in zip(s, s[1:] + s[:1]))
    if inr and not crosses:
        expect(out.equals(p) and [list(q.exterior.coords) for q in parts(out)] == [list(q.exterior.coords) for q in parts(p)], f"a polygon in range was changed: {p.wkt} -> {out.wkt}", "unchanged")


def judge(out, regs, i, what):
    expect(out.geom_type in ("Polygon", "MultiPolygon"), f"{what}: result is a {out.geom_type}", "type")
    expect(out.is_valid, f"{what}: result is not valid: {out.wkt[:200]}", "valid")
    w, s, e, n = out.bounds
    expect(w >= -180 - 1e-9 and e <= 180 + 1e-9 and s >= -90 - 1e-9 and n <= 90 + 1e-9, f"{what}: result extends over {out.bounds}", "range")
    pg = prep(out)
    pts = [(-180 + 360 * a, -90 + 180 * b) for a, b in i["probe"]]
    # around the given vertices, where the region is decided
    for ss, hs in i["polys"]:
        for r in [ss] + hs:
            for k, (x, y) in enumerate(r):
                dx, dy = i["near"][k % len(i["near"])]
                yy = y + dy
                xx = x + dx
                if yy > 90:
                    xx, yy = xx + 180, 180 - yy
                if yy < -90:
                    xx, yy = xx + 180, -180 - yy
                pts.append((wrap(xx), yy))
    for x, y in pts:
        ms = [r.meets(x, y) for r in regs]
        if any(m is None for m in ms) or abs(abs(x) - 180) < 1e-6 or abs(abs(y) - 90) < 1e-6 or abs(x) < 1e-6:
            continue
        got = pg.contains(geo.Point(x, y))
        if got != any(ms) and out.boundary.distance(geo.Point(x, y)) < 1e-6:
            continue
        expect(got == any(ms), f"{what}: ({x:.5f}, {y:.5f}) {'is' if any(ms) else 'is not'} in the region of the polygon but {'is' if got else 'is not'} in the result {out.wkt[:300]}", "region")


def check_norm(i):
    polys = [build([q]) for q in i["polys"]]
    if i["form"] == "poly":
        arg, regs = build(i["polys"]), [i["polys"]]
    elif i["form"] == "series":
        arg, regs = gpd.GeoSeries(polys, crs="EPSG:4326"), [[q] for q in i["polys"]]
    else:
        arg, regs = gpd.GeoDataFrame(dict(name=list(range(len(polys)))), geometry=polys, crs="EPSG:4326"), [[q] for q in i["polys"]]
    if i["form"] == "poly" and not arg.is_valid:
        try:
            normalize_geometry(arg)
        except ValueError:
            return
        raise Fail("an invalid geometry was accepted", "invalid")
    out = normalize_geometry(arg)
    expect(isinstance(out, gpd.GeoDataFrame) and len(out) == len(regs), f"{len(out)} rows instead of {len(regs)}", "rows")
    for g, r in zip(out.geometry, regs):
        want = split_polygon(build(r))
        expect(g.equals(want), f"row {g.wkt[:200]} is not the split polygon {want.wkt[:200]}", "row")
    if i["form"] == "frame":
        expect(list(out["name"]) == list(range(len(polys))), "other columns changed", "columns")


def check_elev(i):
    p, h = build(i["polys"]), i["h"]
    out = project_polygon_to_elevation(p, h)
    A, B = parts(p), parts(out)
    expect(out.geom_type == p.geom_type and len(A) == len(B), f"{p.geom_type} became {out.geom_type}", "type")
    for a, b in zip(A, B):
        ra, rb = [a.exterior] + list(a.interiors), [b.exterior] + list(b.interiors)
        expect(len(ra) == len(rb), "holes lost", "holes")
        for x, y in zip(ra, rb):
            expect([(c[0], c[1], h) for c in x.coords] == list(y.coords), f"vertices {list(y.coords)[:3]}", "vertices")


def blob(r, cx, cy, sx, sy, k=None):
    k = k or r.randrange(5, 14)
    a0 = r.uniform(0, 6)
    cw = r.choice([1, -1])
    return [[cx + sx * r.uniform(0.4, 1) * math.cos(a0 + cw * 2 * math.pi * j / k), cy + sy * r.uniform(0.4, 1) * math.sin(a0 + cw * 2 * math.pi * j / k)] for j in range(k)]


def dense(ring):
    """split edges longer than 120 degrees of longitude."""
    out = []
    for a, b in zip(ring, ring[1:] + ring[:1]):
        out.append(a)
        k = int(abs(b[0] - a[0]) // 120)
        for j in range(1, k + 1):
            f = j / (k + 1)
            out.append([a[0] + f * (b[0] - a[0]), a[1] + f * (b[1] - a[1])])
    return out


def rpoly(r, kind=None):
    kind = kind or r.choice(["in", "anti", "anti", "anti-wide", "north", "south", "north-anti", "south-anti", "cap"])
    if kind == "in":
        s, (cx, cy) = r.choice([2, 20]), (r.uniform(-150, 150), r.uniform(-60, 60))
    elif kind == "anti":
        s, (cx, cy) = r.choice([2, 20, 60]), (r.choice([180, -180]) + r.uniform(-1.5, 1.5), r.uniform(-55, 55))
    elif kind == "anti-wide":
        s, (cx, cy) = r.uniform(90, 175), (r.choice([180, -180]) + r.uniform(-80, 80), r.uniform(-50, 50))
    elif kind in ("north", "south"):
        s, (cx, cy) = r.choice([2, 15, 40, 70]), (r.choice([r.uniform(-150, 150), r.uniform(-20, 20), 0.0]), (90 + r.choice([r.uniform(-8, 8), r.uniform(-20, 30)])) * (1 if kind == "north" else -1))
    elif kind in ("north-anti", "south-anti"):
        s, (cx, cy) = r.choice([2, 15, 40]), (r.choice([180, -180]) + r.uniform(-1.5, 1.5), (90 + r.uniform(-8, 8)) * (1 if kind == "north-anti" else -1))
    else:
        n = r.randrange(3, 14)
        lons = [360 * (j + r.uniform(0.1, 0.9)) / n for j in range(n)]
        b, sg = r.uniform(35, 80), r.choice([1, -1])
        if n == 3:
            lons = [20, 140, 261]
        o = r.uniform(0, 360)
        ring = [[wrap((x + o)), sg * (b + r.uniform(-8, 8))] for x in lons]
        if r.random() < 0.5:
            ring.reverse()
        hs = []
        if r.random() < 0.3:
            cx = r.choice([-1, 1]) * r.uniform(20, 150)
            hs = [blob(r, cx, sg * 88.8, 3, 0.3)]
        return [ring, hs]
    sy = min(s, 30, 85 - abs(cy)) if abs(cy) < 80 else min(s, 40)
    k = r.randrange(24, 36) if s > 60 else None
    ring = blob(r, cx, cy, s, sy, k)
    if kind == "in" and (max(abs(x) for x, _ in ring) > 180):
        ring = blob(r, 0, cy, s, sy)
    hs = []
    if r.random() < 0.5 and kind != "in" or r.random() < 0.3:
        cx = cx if kind != "in" else sum(x for x, _ in ring) / len(ring)
        hs = [blob(r, cx + r.uniform(-0.02, 0.02) * s, cy, s * 0.2, sy * 0.2, 6)]
    lonw = lambda L: [[wrap(x), y] for x, y in dense(L)]
    j = r.randrange(len(ring))
    ring = ring[j:] + ring[:j]
    return [lonw(ring), [lonw(h) for h in hs]]


def concrete(C):
    extra = lambda r: dict(probe=[[r.random(), r.random()] for _ in range(40)], near=[[r.choice([-1, 1]) * r.choice([0.01, 0.3, 2]) for _ in "xy"] for _ in range(7)])

    def gp(r):
        if r.random() < 0.7:
            return dict(polys=[rpoly(r)], **extra(r))
        # several polygons of any kind, apart from each other on the globe
        L, taken = [], []
        for _ in range(r.choice([2, 3, 3, 4]) + 3):
            q = rpoly(r, r.choice(["in", "anti", "north", "south", "north", "south", "north-anti", "south-anti", "cap"]))
            try:
                a = Region([tuple(c) for c in q[0]], [[tuple(c) for c in h] for h in q[1]])
            except Skip:
                continue
            if a.pole:
                b = min(abs(y) for _, y in q[0]) - 12
                zone = [geo.box(-1000, b, 1000, 90) if a.pole > 0 else geo.box(-1000, -90, 1000, -b)]
            else:
                sh = geo.Polygon(a.P.exterior)
                zone = [geo.Polygon([f(x, y) for x, y in sh.exterior.coords]).buffer(0.5) for k in (-720, -360, 0, 360, 720) for f in (lambda x, y: (x + k, y), lambda x, y: (x + k + 180, 180 - y), lambda x, y: (x + k + 180, -180 - y))]
            if all(not z.intersects(t) for z in zone for t in taken):
                L.append(q)
                taken += zone
        return dict(polys=L[:r.choice([2, 3, 4])], **extra(r))

    def ok(i):
        # several polygons: apart from each other
        try:
            check_split(i)
        except Skip:
            raise
    C.cases("split", gp, ok, 400, "polygons and multi-polygons with holes over the antimeridian, the poles and in range", share=0.7)

    def gn(r):
        return dict(polys=[rpoly(r, r.choice(["in", "anti"])) for _ in range(r.choice([1, 1, 2, 3]))], form=r.choice(["poly", "series", "frame"]))
    C.cases("normalize", gn, check_norm, 40, "polygon, series and table forms")

    def ge(r):
        return dict(polys=[rpoly(r, "in") for _ in range(r.choice([1, 2]))], h=r.choice([0.0, 500.0, -20.5]))
    C.cases("elevation", ge, check_elev, 30, "polygons with holes")


# ------------------------------------------------------------------ deductive: symbolic polygons
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
from shapely import ops as _ops  # noqa: E402
from vf.tables import fresh_fn, TFrame  # noqa: E402


class Ring(Sym):
    def __init__(self, coords):
        self.coords = coords

    def _subst(self, p):
        return Ring(core.subst(self.coords, p))


class SPoly(Sym):
    """A polygon by its rings (sequences of coordinate pairs); holes: sequence of rings."""

    def __init__(self, shell, holes=None, valid=True):
        self.shell, self.holes, self.valid = shell, [] if holes is None else holes, valid

    @property
    def exterior(self):
        return Ring(self.shell)

    def contains(self, q):
        """contains the origin: decided by the caller's hypothesis (winding number of the ring about the pole)."""
        CONTAINS.append((self, q))
        return core.SBool(z3.Bool("encloses_pole"))

    @property
    def interiors(self):
        return self.holes

    @property
    def is_valid(self):
        return self.valid

    def _subst(self, p):
        return SPoly(core.subst(self.shell, p), core.subst(self.holes, p), core.subst(self.valid, p) if isinstance(self.valid, Sym) else self.valid)

    def _isinstance(self, c):
        return c is geo.Polygon


class SMulti(Sym):
    def __init__(self, geoms):
        self.geoms = geoms

    def _subst(self, p):
        return SMulti(core.subst(self.geoms, p))

    def _isinstance(self, c):
        return c is geo.MultiPolygon

    @property
    def is_valid(self):
        return True


CONTAINS = []
VALID = []     # validity asked of constructed polygons


def _polygon(interp, args, kw):
    shell = args[0] if args else kw.get("shell")
    holes = args[1] if len(args) > 1 else kw.get("holes")
    if isinstance(shell, list) and is_sym(shell) and not isinstance(shell, Seq):
        shell = seq.of_list(shell)
    if not isinstance(shell, Seq):
        return NotImplemented
    if isinstance(holes, Seq) and isinstance(holes.get(seq.gvar("z")), Ring):
        holes = Seq(holes.n, lambda k: holes0.get(k).coords) if (holes0 := holes) is not None else holes
    rings = holes if not isinstance(holes, Seq) else Seq(holes.n, lambda k: Ring(holes.get(k)))
    if isinstance(rings, list):
        rings = [Ring(x) if not isinstance(x, Ring) else x for x in rings]
    ok = core.fbool("valid") if hasattr(core, "fbool") else True
    p = SPoly(shell, rings, ok)
    VALID.append(p)
    return p


def _cumsum(interp, args, kw):
    s = args[0]
    if not isinstance(s, Seq) or kw or len(args) > 1:
        return NotImplemented
    el = s.get(seq.gvar("z"))
    F = fresh_fn("cumsum", I, I if el.is_int else R)
    a = seq.gvar("a")
    ctx.trust("numpy cumsum: running sums")
    from vf.tables import put
    put(z3.Implies(s.n > 0, F(z3.IntVal(0)) == s.get(z3.IntVal(0)).e))
    put(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a + 1 < s.n), F(a + 1) == F(a) + s.get(a + 1).e), patterns=[F(a + 1)]))
    r = Seq(s.n, lambda j: Num(F(zi(j))), True)
    r.running = (F, s)
    return r


def _insert(interp, args, kw):
    s, at, val = args
    if not isinstance(s, Seq) or at != 0 or kw:
        return NotImplemented
    return Seq(s.n + 1, lambda j: Num(z3.If(zi(j) == 0, core.zn(val), s.get(zi(j) - 1).e)), True)


SHIFT = []


def _interp(interp, args, kw):
    x, xp, fp = args
    if isinstance(xp, list) and len(xp) == 2 and is_sym([x, xp, fp]):
        (a, b), (c, d) = [zr(t) for t in xp], [zr(t) for t in fp]
        xx = zr(x)
        r = core.freal("interp")
        ctx.trust("numpy interp between two increasing abscissae: linear, constant outside")
        core.assume(z3.Implies(z3.And(a < b, a <= xx, xx <= b), (zr(r) - c) * (b - a) == (d - c) * (xx - a)))
        core.assume(z3.Implies(z3.And(a <= b, xx <= a), zr(r) == c))
        core.assume(z3.Implies(z3.And(a <= b, xx >= b), z3.Or(zr(r) == d, z3.And(xx == a, zr(r) == c))))
        return r
    if isinstance(xp, Seq) and isinstance(fp, Seq) and isinstance(x, Num):
        # neighbours in sorted order
        ctx.trust("numpy interp over sorted abscissae: between the values at the neighbouring abscissae (end values outside)")
        L, r = fresh_fn("below", R, I)(x.e), fresh_fn("interp", R, R)(x.e)
        f = lambda q: zr(fp.get(q))
        X = lambda q: zr(xp.get(q))
        n = xp.n
        core.assume(z3.Implies(n > 0, z3.Or(z3.And(x.e <= X(z3.IntVal(0)), r == f(z3.IntVal(0))), z3.And(x.e >= X(n - 1), r == f(n - 1)),
                    z3.And(L >= 0, L + 1 < n, X(L) <= x.e, x.e <= X(L + 1), X(L) < X(L + 1), z3.Implies(f(L) == f(L + 1), r == f(L)), z3.Implies(x.e == X(L), r == f(L)), z3.Implies(x.e == X(L + 1), r == f(L + 1))))))
        SHIFT.append((x, xp, fp, L, r))
        return Num(r)
    return NotImplemented


def install():
    from shapely.geometry import LineString
    MODELS[np.cumsum], MODELS[np.insert], MODELS[np.interp] = _cumsum, _insert, _interp
    MODELS[LineString] = lambda interp, args, kw: Line(args[0])
    MODELS[_ops.split] = lambda interp, args, kw: Coll(args[0], args[1]) if isinstance(args[0], SPoly) else pt.split_along(args[0], args[1]) if isinstance(args[0], pt.Part) else NotImplemented
    MODELS[geo.Polygon] = _polygon
    MODELS[np.array] = _array
    MODELS[gpd.GeoSeries] = lambda interp, args, kw: Series(seq.of_list(args[0]) if isinstance(args[0], list) else args[0]) if len(args) == 1 and is_sym(args) and not set(kw) - {"crs"} else NotImplemented
    MODELS[gpd.GeoDataFrame] = _gdf
    METHOD_MODELS[(TFrame, "apply")] = _apply_rows
    METHOD_MODELS[(Seq, "sort")] = _sort
    if sorted not in MODELS:
        MODELS[sorted] = _sorted
    MODELS[geo.MultiPolygon] = _multi
    MODELS[geo.GeometryCollection] = lambda interp, args, kw: pt.GColl(args[0]) if len(args) == 1 and is_sym(args[0]) else NotImplemented


class Series(Sym):
    """series of geometries."""

    def __init__(self, s):
        self.s = s

    def _isinstance(self, c):
        return c is gpd.GeoSeries

    def _subst(self, p):
        return Series(core.subst(self.s, p))


class Row(Sym):
    """one row of a table, by column."""

    def __init__(self, fr, j):
        self.fr, self.j = fr, j

    def _subst(self, p):
        return Row(self.fr, z3.substitute(zi(self.j), *p))

    def __getattr__(self, name):
        if name.startswith("_") or name not in self.__dict__.get("fr").cols:
            raise AttributeError(name)
        return self.fr.cols[name](self.j)

    def _getitem(self, interp, ix):
        if not isinstance(ix, str) or ix not in self.fr.cols:
            raise Unsupported("part of a row")
        return self.fr.cols[ix](self.j)


def _apply_rows(interp, fr, args, kw):
    f = args[0] if args else kw.get("func")
    if set(kw) - {"axis", "func"} or kw.get("axis") not in (1, "columns") or f is None:
        raise Unsupported("apply options")
    ctx.trust("pandas apply along the rows: the function of every row, in order (tables with at least one row)")
    n, i, cond, val, filtered = seq.generic_map(interp, Seq(fr.n, lambda j: Row(fr, j)), lambda r: interp.call(f, [r]))
    return Seq(n, val, True)


_old_gdf = MODELS[gpd.GeoDataFrame]


def _gdf(interp, args, kw):
    g = kw.get("geometry")
    if not args and set(kw) <= {"geometry", "crs"} and isinstance(g, (Series, Seq)):
        g = g.s if isinstance(g, Series) else g
        ctx.trust("geopandas: a table of geometries has one row per geometry, in order")
        return TFrame(g.n, {"geometry": g.get}, "range")
    if not args and set(kw) <= {"geometry", "crs"} and isinstance(g, list) and is_sym(g):
        s = seq.of_list(g)
        return TFrame(s.n, {"geometry": s.get}, "range")
    return _old_gdf(interp, args, kw)


class Cols(Sym):
    """array of coordinate pairs."""

    def __init__(self, s):
        self.s = s

    def _getitem(self, interp, ix):
        if isinstance(ix, tuple) and len(ix) == 2 and ix[0] == slice(None) and ix[1] in (0, 1):
            return Column(self.s, ix[1])
        raise Unsupported("part of an array of pairs")


class Column(Seq):
    def __init__(self, s, c):
        super().__init__(s.n, lambda j: s.get(j)[c], True)

    def mean(self):
        """the mean by name (numpy), with the column it is of."""
        ctx.trust("numpy mean: the mean of the values, whatever their order")
        MEANS.append((self, core.freal("mean")))
        return MEANS[-1][1]


MEANS = []
_np_array = MODELS.get(np.array)


def _array(interp, args, kw):
    x = args[0]
    if isinstance(x, Seq) and not kw and isinstance(x.get(seq.gvar("z")), tuple) and len(x.get(seq.gvar("z"))) == 2:
        return Cols(x)
    return _np_array(interp, args, kw) if _np_array else NotImplemented


PERM = []


def _sorted_seq(interp, s, kw):
    from vf.models import perm_of
    if set(kw) - {"key"} or type(s) is not Seq:
        raise Unsupported("sort options")
    f0, key = s.f, kw.get("key")
    old = Seq(s.n, f0)
    keyed = old if key is None else Seq(s.n, lambda j: interp.call(key, [f0(zi(j))], {}))
    p, q = perm_of(keyed)
    ctx.trust("list sort: a permutation into nondecreasing order of the key")
    PERM.append((p, q))
    return lambda j: f0(p(zi(j)))


def _sort(interp, s, args, kw):
    """list.sort in place."""
    if ctx.gvars:
        raise Unsupported("sort inside a generic element")
    f0 = s.f
    f1 = _sorted_seq(interp, s, kw)
    s.f = f1
    for fl in ctx.mut_flags:
        fl["mut"] = True
    ctx.journal.append(lambda: setattr(s, "f", f0))


def _sorted(interp, args, kw):
    if isinstance(args[0], Seq):
        return Seq(args[0].n, _sorted_seq(interp, args[0], kw))
    return NotImplemented


def _multi(interp, args, kw):
    x = args[0] if args else None
    if isinstance(x, list) and any(isinstance(g, pt.Part) for g in x) or isinstance(x, Seq) and isinstance(x.get(seq.gvar("z")), pt.Part):
        return pt.GColl(x, geo.MultiPolygon)
    return SMulti(x) if isinstance(x, Seq) or is_sym(x) else NotImplemented


class Line(Sym):
    def __init__(self, pts):
        self.pts = pts


class Coll(Sym):
    """parts of a polygon split along a line."""

    def __init__(self, poly, line):
        self.poly, self.line = poly, line

    def _isinstance(self, c):
        return c is geo.GeometryCollection


def sym_poly(name, holes=True, z=False):
    X, Y, n = z3.Function("X_" + name, I, R), z3.Function("Y_" + name, I, R), z3.Int("n_" + name)
    core.assume(n >= 4)
    HX, HY, HN, hn = z3.Function("HX_" + name, I, I, R), z3.Function("HY_" + name, I, I, R), z3.Function("HN_" + name, I, I), z3.Int("h_" + name)
    core.assume(hn >= 0)
    a = z3.Int("ha")
    core.assume(z3.ForAll([a], HN(a) >= 4, patterns=[HN(a)]))
    shell = Seq(n, lambda j: (Num(X(j)), Num(Y(j))))
    hs = Seq(hn, lambda k: Ring(Seq(HN(k), lambda j: (Num(HX(k, j)), Num(HY(k, j)))))) if holes else []
    return SPoly(shell, hs), X, Y, n, HX, HY, HN, hn


def rings_of(p):
    return p.shell, p.holes


def deductive(V):
    install()
    j, k = z3.Ints("j k")

    def same_count(v, q, n, HN, hn):
        v.ensure("as many vertices", q.shell.n == n)
        v.ensure("as many holes, with as many vertices", z3.And(q.holes.n == hn, z3.Implies(z3.And(k >= 0, k < hn), q.holes.get(k).coords.n == HN(k))))

    def inrange(v, n, HN, hn):
        v.assume(z3.And(j >= 0, j < n))
        return z3.And(k >= 0, k < hn)

    # ---- elevation
    def body_elev(v):
        p, X, Y, n, HX, HY, HN, hn = sym_poly("p")
        h = v.real("h")
        q = v.call(project_polygon_to_elevation, p, h)
        same_count(v, q, n, HN, hn)
        v.assume(z3.And(j >= 0, j < n))
        c = q.shell.get(j)
        v.ensure("a vertex keeps its longitude and latitude and takes the elevation", z3.And(z3.BoolVal(len(c) == 3), equal(c[0], Num(X(j))), equal(c[1], Num(Y(j))), equal(c[2], h)))
        m = z3.Int("m")
        v.assume(z3.And(k >= 0, k < hn, m >= 0, m < HN(k)))
        c = q.holes.get(k).coords.get(m)
        v.ensure("so does a vertex of a hole", z3.And(z3.BoolVal(len(c) == 3), equal(c[0], Num(HX(k, m))), equal(c[1], Num(HY(k, m))), equal(c[2], h)))
    V.vc("project_polygon_to_elevation, polygon", body_elev)

    def body_elev_multi(v):
        g = z3.Int("g_n")
        v.assume(g >= 0)
        X, Y, N = z3.Function("MX", I, I, R), z3.Function("MY", I, I, R), z3.Function("MN", I, I)
        ms = SMulti(Seq(g, lambda q: SPoly(Seq(N(q), lambda j: (Num(X(q, j)), Num(Y(q, j)))), [])))
        h = v.real("h")
        out = v.call(project_polygon_to_elevation, ms, h)
        v.ensure("a multi-polygon", z3.BoolVal(isinstance(out, SMulti)))
        v.ensure("as many polygons", out.geoms.n == g)
        v.assume(z3.And(k >= 0, k < g))
        o = out.geoms.get(k)
        v.ensure("as many vertices each", o.shell.n == N(k))
        v.assume(z3.And(j >= 0, j < N(k)))
        c = o.shell.get(j)
        v.ensure("polygon by polygon", z3.And(equal(c[0], Num(X(k, j))), equal(c[1], Num(Y(k, j))), equal(c[2], h)))
    V.vc("project_polygon_to_elevation, multi-polygon", body_elev_multi)

    # ---- wrapping of one-sided pieces
    def body_wrap_pole(v, f, sg):
        p, X, Y, n, HX, HY, HN, hn = sym_poly("p")
        a, b = z3.Ints("qa qb")
        beyond = v.bool("beyond")      # the piece beyond the pole, else the piece on this side
        west = v.bool("west")
        lat = lambda y: z3.If(beyond.e, z3.And(sg * y >= 90, sg * y <= 180), z3.And(sg * y <= 90, sg * y >= -90))
        lon = lambda x: z3.And(x >= -180, x <= 180, z3.Implies(beyond.e, z3.If(west.e, x <= 0, x >= 0)))
        v.assume(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), z3.And(lat(Y(a)), lon(X(a)))), patterns=[X(a)]))
        v.assume(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), z3.And(lat(Y(a)), lon(X(a)))), patterns=[Y(a)]))
        v.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < hn, b >= 0, b < HN(a)), z3.And(lat(HY(a, b)), lon(HX(a, b)))), patterns=[HX(a, b)]))
        e = z3.Int("e")       # the piece is not flat, and lies on one side only of the prime meridian
        v.assume(z3.And(e >= 0, e < n, z3.If(beyond.e, sg * Y(e) > 90, sg * Y(e) < 90)))
        d = z3.Int("d")
        v.assume(z3.And(d >= 0, d < n, X(d) != 0))
        del VALID[:]
        q = v.call(f, p)
        if isinstance(q, core.Case):
            q = q.resolve()
        if VALID and isinstance(VALID[-1].valid, Sym):
            v.assume(VALID[-1].valid)         # reflecting a valid piece gives a valid piece
        m = z3.Int("m")
        v.assume(z3.And(j >= 0, j < n))
        inst = v.instances(e, d, j, (k, m))
        c = q.shell.get(j)
        if q is p:
            v.ensure("only a piece on this side of the pole is returned as it is", z3.Not(beyond.e), hints=inst)
            return
        v.ensure("only a piece beyond the pole is moved", beyond.e, hints=inst)
        same_count(v, q, n, HN, hn)
        for nm, c, x, y in (("vertex", c, X(j), Y(j)), ("vertex of a hole", q.holes.get(k).coords.get(m), HX(k, m), HY(k, m))):
            if nm != "vertex":
                v.assume(z3.And(k >= 0, k < hn, m >= 0, m < HN(k)))
            cx, cy = zr(c[0]), zr(c[1])
            v.ensure(f"a {nm} is reflected over the pole", z3.And(z3.Or(cx == x + 180, cx == x - 180), cy == sg * 180 - y), hints=inst)
            v.ensure(f"a {nm} is in range", z3.And(cx >= -180, cx <= 180, cy >= -90, cy <= 90), hints=inst)
            v.ensure(f"a {nm} moves the same way as the others", cx - x == z3.If(west.e, z3.RealVal(180), z3.RealVal(-180)), hints=inst)
    for f, sg, nm in ((utils._wrap_polygon_over_north_pole, 1, "north"), (utils._wrap_polygon_over_south_pole, -1, "south")):
        V.vc(f"wrapping a piece over the {nm} pole", lambda v, f=f, sg=sg: body_wrap_pole(v, f, sg))

    def body_wrap_anti(v):
        p, X, Y, n, HX, HY, HN, hn = sym_poly("p")
        s = v.int("side", ge=-1, le=1).e      # which turn the piece lies in
        a, b = z3.Ints("qa qb")
        ok = lambda x: z3.And(x >= -180 + 360 * z3.ToReal(s), x <= 180 + 360 * z3.ToReal(s))
        v.assume(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), ok(X(a))), patterns=[X(a)]))
        v.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < hn, b >= 0, b < HN(a)), ok(HX(a, b))), patterns=[HX(a, b)]))
        e = z3.Int("e")       # some vertex is inside its turn (the piece is not flat)
        v.assume(z3.And(e >= 0, e < n, X(e) > -180 + 360 * z3.ToReal(s), X(e) < 180 + 360 * z3.ToReal(s)))
        del VALID[:]
        q = v.call(utils._wrap_polygon_over_antimeridian, p)
        if isinstance(q, core.Case):
            q = q.resolve()
        for x in VALID:
            if isinstance(x.valid, Sym):
                v.assume(x.valid)
        m = z3.Int("m")
        same_count(v, q, n, HN, hn)
        v.assume(z3.And(j >= 0, j < n))
        inst = v.instances(e, j, (k, m))
        for nm, c, x, y in (("vertex", q.shell.get(j), X(j), Y(j)), ("vertex of a hole", q.holes.get(k).coords.get(m), HX(k, m), HY(k, m))):
            if nm != "vertex":
                v.assume(z3.And(k >= 0, k < hn, m >= 0, m < HN(k)))
            v.ensure(f"a {nm} moves by the turns of its piece", z3.And(zr(c[0]) == x - 360 * z3.ToReal(s), zr(c[1]) == y), hints=inst)
            v.ensure(f"a {nm} is in range", z3.And(zr(c[0]) >= -180, zr(c[0]) <= 180), hints=inst)
    V.vc("wrapping a piece over the antimeridian", body_wrap_anti)

    # ---- the antimeridian
    def ring_in_range(v, X, Y, n, HX, HN, hn):
        a, b = z3.Ints("qa qb")
        v.assume(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), z3.And(X(a) >= -180, X(a) <= 180)), patterns=[X(a)]))
        v.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < hn, b >= 0, b < HN(a)), z3.And(HX(a, b) >= -180, HX(a, b) <= 180)), patterns=[HX(a, b)]))
        v.assume(z3.And(X(z3.IntVal(0)) == X(n - 1), Y(z3.IntVal(0)) == Y(n - 1)))

    CONV, WRAPA = "tatc.utils._convert_collection_to_polygon", "tatc.utils._wrap_polygon_over_antimeridian"

    class Tagged(SMulti):
        def __init__(self, tag, of):
            self.tag, self.of, self.geoms = tag, of, []

    def contracts_for_parts():
        CONTRACTS[CONV] = lambda interp, a, k: Tagged("polygons", a[0])
        CONTRACTS[WRAPA] = lambda interp, a, k: Tagged("wrapped", a[0])

    def body_same(v):
        p, X, Y, n, HX, HY, HN, hn = sym_poly("p")
        ring_in_range(v, X, Y, n, HX, HN, hn)
        a = z3.Int("qc")
        v.assume(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n - 1), z3.And(X(a + 1) - X(a) < 180, X(a) - X(a + 1) < 180)), patterns=[X(a)]))
        contracts_for_parts()
        q = v.call(utils._split_polygon_antimeridian, p)
        v.ensure("a ring without jumps is returned as it is", z3.BoolVal(q is p))
    V.vc("no jump over the antimeridian", body_same)

    def body_unwrap(v):
        p, X, Y, n, HX, HY, HN, hn = sym_poly("p")
        ring_in_range(v, X, Y, n, HX, HN, hn)
        v.assume(z3.Not(z3.Bool("encloses_pole")))
        g = z3.Int("g")
        v.assume(z3.And(g >= 0, g < n - 1, z3.Or(X(g + 1) - X(g) >= 180, X(g) - X(g + 1) >= 180)))
        contracts_for_parts()
        del SHIFT[:], CONTAINS[:]
        q = v.call(utils._split_polygon_antimeridian, p)
        if not isinstance(q, Tagged) or q.tag != "wrapped" or not isinstance(q.of, Tagged) or not isinstance(q.of.of, Coll):
            raise Unsupported("result of another shape")
        coll = q.of.of
        u, line = coll.poly, coll.line
        for c, pt in CONTAINS:
            t = c.shell.get(j)
            v.ensure("the pole test looks at the directions of the longitudes", z3.And(z3.BoolVal(pt.equals(geo.Point(0, 0))), equal(t[0], core.trig("cos", Num(X(j) * core.PI / 180))), equal(t[1], core.trig("sin", Num(X(j) * core.PI / 180)))))
        U = lambda t: zr(u.shell.get(t)[0])
        v.assume(z3.And(j >= 0, j < n - 1))
        v.ensure("as many vertices", u.shell.n == n)
        turns = lambda t, x: z3.ToReal(z3.ToInt((t - x) / 360)) * 360 == t - x
        S = next((f.decl() for f in _apps(u.shell.get(j)[0].e, "cumsum")), None)
        if S is None:
            raise Unsupported("turns not accumulated")
        inst = v.instances(j - 1, j, j + 1, z3.IntVal(0), g)
        v.ensure("each vertex moves by whole turns", z3.And(turns(U(j), X(j)), equal(u.shell.get(j)[1], Num(Y(j)))), hints=inst)
        v.ensure("no jumps remain", z3.And(U(j + 1) - U(j) <= 180, U(j) - U(j + 1) <= 180), hints=inst)
        v.ensure("the first vertex stays", U(z3.IntVal(0)) == X(z3.IntVal(0)), hints=inst)
        # the cut: with less than a turn in all, the vertices lie in the two turns beside the line
        pts = line.pts
        L = zr(pts[0][0])
        v.ensure("cut along one meridian, pole to pole and beyond", z3.And(equal(pts[0][0], pts[1][0]), z3.Or(L == 180, L == -180), z3.BoolVal(sorted(float(core.const_of(core.zn(t[1]))) if isinstance(t[1], Num) else float(t[1]) for t in pts) == [-180.0, 180.0])))
        a, b = z3.Ints("qd qe")
        v.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < n, b >= 0, b < n), U(a) - U(b) < 360)))
        span = [z3.Implies(z3.And(x >= 0, x < n, y >= 0, y < n), U(x) - U(y) < 360) for x in (j, j + 1, g, g + 1, z3.IntVal(0)) for y in (j, j + 1, g, g + 1, z3.IntVal(0))]
        ext = [t for f in ctx.formulas() for t in _ints_named(f, ("argext",))]
        more = []
        for t in {x.get_id(): x for x in ext}.values():
            more += v.instances(t, t - 1) + [z3.Implies(z3.And(x >= 0, x < n, t >= 0, t < n), z3.And(U(x) - U(t) < 360, U(t) - U(x) < 360)) for x in (j, g, g + 1, z3.IntVal(0))]
        v.ensure("every vertex is in one of the two turns beside the line", z3.And(U(j) >= L - 360, U(j) <= L + 360), hints=inst + span + more)
        v.ensure("in range once its piece is wrapped", z3.Implies(L == 180, U(j) >= -180), hints=inst + span + more)
        v.ensure("in range once its piece is wrapped (west)", z3.Implies(L == -180, U(j) <= 180), hints=inst + span + more)
        # a hole vertex at w (inside the span of the shell) is written wrap(w): it moves by the same turns
        m, t, lo, hi = z3.Ints("m t lo hi")
        v.assume(z3.And(k >= 0, k < hn, m >= 0, m < HN(k), lo >= 0, lo < n, hi >= 0, hi < n))
        w = HX(k, m) - 360 * z3.ToReal(t)
        v.assume(z3.And(U(lo) < w, w < U(hi), HX(k, m) > -180, HX(k, m) < 180))
        hv = u.holes.get(k).coords.get(m)
        v.ensure("a hole vertex keeps its latitude", equal(hv[1], Num(HY(k, m))))
    V.vc("unwrapping over the antimeridian", body_unwrap, sample_sat=False)

    def body_cap(v):
        p, X, Y, n, HX, HY, HN, hn = sym_poly("p")
        ring_in_range(v, X, Y, n, HX, HN, hn)
        a = z3.Int("qa")
        v.assume(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), z3.And(Y(a) >= -90, Y(a) <= 90)), patterns=[Y(a)]))
        v.assume(z3.Bool("encloses_pole"))
        g = z3.Int("g")
        v.assume(z3.And(g >= 0, g < n - 1, z3.Or(X(g + 1) - X(g) >= 180, X(g) - X(g + 1) >= 180)))
        contracts_for_parts()
        del CONTAINS[:], MEANS[:], PERM[:]
        q = v.resolve(v.call(utils._split_polygon_antimeridian, p))
        if not isinstance(q, Tagged) or q.tag != "polygons" or not isinstance(q.of, Coll) or len(PERM) != 1 or len(MEANS) != 1:
            raise Unsupported("result of another shape")
        u, line = q.of.poly, q.of.line
        P, Q = PERM[0]
        pts = [tuple(zr(t) for t in c) for c in (line.pts if isinstance(line, Line) else line.coords)]
        v.ensure("cut along the prime meridian, pole to pole and beyond", z3.And(*[c[0] == 0 for c in pts], z3.Or(z3.And(pts[0][1] <= -90, pts[1][1] >= 90), z3.And(pts[1][1] <= -90, pts[0][1] >= 90))))
        C = lambda t: tuple(zr(x) for x in u.shell.get(t))
        N = u.shell.n
        v.ensure("the vertices (the closing one once) and five corners on the edges", N == n + 4)
        m = n - 1
        v.assume(z3.And(j >= 0, j < m))
        at = C(j + 2)
        inst = v.instances(j, P(j), Q(j), z3.IntVal(0), m - 1, P(z3.IntVal(0)), P(m - 1)) + v.deep((j, m - 1), (z3.IntVal(0), j))
        v.ensure("the vertices follow in the order of their longitudes", z3.And(P(j) >= 0, P(j) < m, at[0] == X(P(j)), at[1] == Y(P(j)), X(P(j)) <= X(P(m - 1)), X(P(z3.IntVal(0))) <= X(P(j))), hints=inst)
        v.ensure("and every vertex is among them", z3.And(Q(j) >= 0, Q(j) < m, P(Q(j)) == j), hints=inst)
        west, east = (X(P(z3.IntVal(0))), Y(P(z3.IntVal(0)))), (X(P(m - 1)), Y(P(m - 1)))
        col, mean = MEANS[0]
        cj = zr(col.get(j))
        v.ensure("which pole is told by the mean latitude of the vertices", z3.And(col.n == m, cj == Y(P(j))), hints=inst)
        pole = z3.If(zr(mean) > 0, z3.RealVal(90), z3.RealVal(-90))
        top, w, e, end, last = C(z3.IntVal(0)), C(z3.IntVal(1)), C(m + 2), C(m + 3), C(m + 4)
        v.ensure("from the pole down the western edge and up the eastern edge to the pole", z3.And(top[0] == -180, w[0] == -180, e[0] == 180, end[0] == 180, last[0] == -180, top[1] == pole, end[1] == pole, last[1] == pole), hints=inst)
        v.ensure("both edges are met at one latitude", w[1] == e[1], hints=inst)
        v.ensure("on the line from the easternmost to the westernmost vertex over the antimeridian", (w[1] - east[1]) * (west[0] + 360 - east[0]) == (west[1] - east[1]) * (180 - east[0]), hints=inst)
        v.ensure("the holes are kept", z3.BoolVal(not isinstance(u.holes, list)) if isinstance(p.holes, Seq) else z3.BoolVal(u.holes == p.holes))
        if isinstance(u.holes, Seq):
            t = z3.Int("t")
            v.assume(z3.And(k >= 0, k < hn, t >= 0, t < HN(k)))
            h = u.holes.get(k).coords
            v.ensure("vertex by vertex", z3.And(u.holes.n == hn, h.n == HN(k), zr(h.get(t)[0]) == HX(k, t), zr(h.get(t)[1]) == HY(k, t)))
    V.vc("a ring around a pole", body_cap, sample_sat=False)

    # ---- collections of pieces
    collections(V)


def collections(V):
    """The recursion over multi-polygons, the loops that split at the poles and the joining of pieces, over abstract pieces
    (vf/parts.py): whatever point p of the globe is chosen, some piece of the result covers p exactly when the input does."""
    COV, LONOK = pt.COV, pt.LONOK
    CONV = "tatc.utils._convert_collection_to_polygon"
    SIDES = {"north": (1, pt.N_OK, pt.N_BEY, utils._split_polygon_north_pole, utils._wrap_polygon_over_north_pole),
             "south": (-1, pt.S_OK, pt.S_BEY, utils._split_polygon_south_pole, utils._wrap_polygon_over_south_pole)}
    k = z3.Int("pk")

    def name(f):
        return "tatc.utils." + f.__name__

    def coverage(v, tag, s, has, cands, dst, inst=lambda *a: []):
        """s covers p exactly when `has` says so."""
        t = z3.Int("some_" + dst)
        v.ensure(tag + "what is covered stays covered", z3.Implies(has, pt.covers(s, cands)), hints=inst())
        v.ensure(tag + "nothing else is covered", z3.Implies(z3.And(t >= 0, t < s.n, COV(s.get(t).id)), has), hints=inst(t))

    # -- conversion of a collection: exactly its polygons and the polygons of its multi-polygons
    def body_conv(v):
        n, G = v.int("members", ge=0).e, z3.Function("collection", I, I)
        a = z3.Int("qa")
        v.assume(z3.ForAll([a], pt.MN(a) >= 0, patterns=[pt.MN(a)]))
        out = v.resolve(v.call(utils._convert_collection_to_polygon, pt.GColl(Seq(n, lambda j: pt.Item(G(j))))))
        s = pt.pieces(out)
        i, m, t, x = z3.Ints("i m t x")
        v.assume(z3.And(i >= 0, i < n, m >= 0))
        at = pt.places(s, [i, m])
        v.ensure("a polygon of the collection is kept", z3.Implies(pt.KIND(G(i)) == 0, z3.Or(*[z3.And(q >= 0, q < s.n, s.get(q).id == G(i)) for q in at])))
        v.ensure("a part of a multi-polygon of the collection is kept", z3.Implies(z3.And(pt.KIND(G(i)) == 1, m < pt.MN(G(i))), z3.Or(*[z3.And(q >= 0, q < s.n, s.get(q).id == pt.MG(G(i), m)) for q in at])))
        v.assume(z3.And(t >= 0, t < s.n))
        e = s.get(t).id
        v.ensure("nothing else is kept", z3.Exists([i, m], z3.And(i >= 0, i < n, z3.Or(z3.And(pt.KIND(G(i)) == 0, G(i) == e), z3.And(pt.KIND(G(i)) == 1, m >= 0, m < pt.MN(G(i)), pt.MG(G(i), m) == e)))))
    V.vc("polygons of a collection", body_conv)

    def conv_contract(interp, a, kw):
        """all members are polygons here: the same pieces, in some order."""
        c = a[0]
        s = pt.pieces(c)
        if not all(type(x) is pt.Part for x in [s.get(seq.gvar("z"))]):
            raise Unsupported("collection of another kind")
        m, H, src, dst = z3.Int("converted"), fresh_fn("converted", I, I), fresh_fn("converted_from", I, I), fresh_fn("converted_to", I, I)
        q = z3.Int("qq")
        core.assume(z3.And(m >= 1, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), z3.And(src(q) >= 0, src(q) < s.n, H(q) == s.get(src(q)).id)), patterns=[H(q)])))
        core.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < s.n), z3.And(dst(q) >= 0, dst(q) < m, H(dst(q)) == s.get(q).id)), patterns=[dst(q)]))
        W["conv"] = (s, dst, src)
        return pt.GColl(Seq(m, lambda j: pt.Part(H(j))), geo.MultiPolygon)

    W = {}

    def wrapped(side):
        sg, OKS, BEY, f, wf = SIDES[side]
        WR = z3.Function("wrapped_" + side, I, I)
        other = pt.S_OK if side == "north" else pt.N_OK

        def rule(e):
            """contract of wrapping one piece, proved above for its coordinates."""
            pre = z3.And(LONOK(e), z3.Or(OKS(e), z3.And(BEY(e), pt.ONE(e))))
            return z3.Implies(pre, z3.And(COV(WR(e)) == COV(e), LONOK(WR(e)), OKS(WR(e)), z3.Implies(z3.Or(other(e), BEY(e)), other(WR(e)))))
        return WR, rule

    for side in ("north", "south"):
        sg, OKS, BEY, f, wf = SIDES[side]
        WR, wrule = wrapped(side)

        def recursive(fn, q, inner):
            """contract for the call on a part inside the function itself."""
            seen = []

            def c(interp, a, kw):
                if isinstance(a[0], pt.Part) and type(a[0]) is pt.Part and seen:
                    return inner(a[0])
                raise Unsupported("called on another value")
            return c

        # -- wrapping a collection is wrapping its pieces, one by one
        def body_wrap_multi(v, wf=wf, WR=WR):
            n, G = v.int("pieces", ge=0).e, z3.Function("given", I, I)

            def inner(interp, a, kw):
                return pt.Part(WR(a[0].id)) if type(a[0]) is pt.Part else NotImplemented
            CONTRACTS[name(wf)] = inner
            out = v.call(wf, pt.GColl(Seq(n, lambda j: pt.Part(G(j))), geo.MultiPolygon))
            s = pt.pieces(out)
            v.ensure("contract: as many pieces", s.n == n)
            v.assume(z3.And(k >= 0, k < n))
            v.ensure("piece by piece", s.get(k).id == WR(G(k)))
        V.vc(f"wrapping pieces over the {side} pole", body_wrap_multi)

        # -- splitting one polygon: the loop over its parts
        def state_ok(G, m, i, orig, P):
            """loop invariant: the parts are this side of the pole, or beyond it on one side of the prime meridian or still to come;
            together they cover what the polygon covers."""
            t, u = z3.Int("it"), z3.Int("iu")
            left = lambda e: z3.Exists([u], z3.And(u >= i, u < orig.n, orig.get(u).id == e))
            one = lambda e: z3.And(LONOK(e), z3.Or(OKS(e), z3.And(BEY(e), z3.Or(pt.ONE(e), left(e)))))
            return one

        def body_loop(v, mode, side=side, f=f, OKS=OKS, BEY=BEY, WR=WR, wrule=wrule, wf=wf, sg=sg):
            P = z3.Int("P")
            a = z3.Int("qa")
            other = pt.S_OK if side == "north" else pt.N_OK
            v.assume(LONOK(P))
            v.assume(OKS(P) == z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < pt.PN(P)), sg * pt.PY(P, a) <= 90)))
            v.assume(pt.PN(P) >= 4)
            # a piece beyond this pole is not beyond the other
            v.assume(z3.ForAll([a], z3.Implies(BEY(a), other(a)), patterns=[BEY(a)]))
            had_other = other(P)
            ran = {}
            W.clear()
            del pt.WITNESS[:]

            def rule(interp, s, it, env):
                if not isinstance(it.get(seq.gvar("z")), pt.Part):
                    return False
                colls = [x for x, y in env.vars.items() if isinstance(y, pt.GColl)]
                if len(colls) != 1 or ran:
                    raise Unsupported("loop state of another shape")
                var = colls[0]
                ran["yes"] = it
                orig, i, w0 = it, z3.Int("i"), pt.WITNESS[-1]
                O = lambda u: orig.get(u).id
                src = z3.Function("still_to_come", I, I)

                def inv(e, i, wit):
                    return z3.And(LONOK(e), z3.Implies(had_other, other(e)), z3.Or(OKS(e), z3.And(BEY(e), z3.Or(pt.ONE(e), z3.And(wit >= i, wit < orig.n, O(wit) == e)))))

                if mode == "start":
                    t = z3.Int("t")
                    s0 = pt.pieces(env.vars[var])
                    v.assume(z3.And(t >= 0, t < s0.n))
                    v.ensure("before the loop: every part is this side of the pole, or beyond it and still to come", inv(s0.get(t).id, z3.IntVal(0), t), hints=v.instances(t))
                    coverage(v, "before the loop: ", s0, COV(P), [w0], "start", lambda *x: v.instances(w0, *x))
                    return True
                # any state satisfying the invariant
                m, G, w = z3.Int("parts_now"), z3.Function("part_now", I, I), z3.Int("covering_now")
                q = z3.Int("sq")
                at = i if mode == "step" else orig.n
                core.assume(z3.And(m >= 0, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), z3.And(inv(G(q), at, src(q)), z3.Implies(COV(G(q)), COV(P)))), patterns=[G(q)])))
                core.assume(z3.Implies(COV(P), z3.And(w >= 0, w < m, COV(G(w)))))
                env.vars[var] = pt.GColl(Seq(m, lambda j: pt.Part(G(j))))
                if mode == "end":
                    ran["end"] = (m, G, w)
                    return True
                core.assume(z3.And(i >= 0, i < orig.n))
                interp.assign(s.target, orig.get(i), env)
                n0 = len(pt.WITNESS)
                from vf.interp import ContinueX
                try:
                    interp.block(s.body, env)
                except ContinueX:
                    pass
                env.vars[var] = v.resolve(env.vars[var])
                if not isinstance(env.vars[var], pt.GColl):
                    raise Unsupported(f"loop state of another shape: {type(env.vars[var]).__name__}")
                s1 = pt.pieces(env.vars[var])
                cands = [w] + pt.WITNESS[n0:]
                t = z3.Int("t")
                inst = lambda *x: v.instances(*(list(x) + cands + [i]))
                coverage(v, "after a step: ", s1, COV(P), cands, "step", inst)
                v.assume(z3.And(t >= 0, t < s1.n))
                e = s1.get(t).id
                # the witness of a part still to come is the one it had
                u = z3.Int("u")
                v.ensure("after a step: every part is this side of the pole, or beyond it and one-sided or still to come",
                         z3.And(LONOK(e), z3.Implies(had_other, other(e)), z3.Or(OKS(e), z3.And(BEY(e), z3.Or(pt.ONE(e), z3.Exists([u], z3.And(u >= i + 1, u < orig.n, O(u) == e)))))), hints=inst(t))
                return True

            CONTRACTS[CONV] = conv_contract

            def wrap_contract(interp, a, kw):
                s = pt.pieces(a[0])
                q = z3.Int("wq")
                core.assume(z3.ForAll([q], wrule(q), patterns=[WR(q)]))
                W["before_wrap"] = s
                return pt.GColl(Seq(s.n, lambda j: pt.Part(WR(s.get(j).id))), geo.MultiPolygon)
            CONTRACTS[name(wf)] = wrap_contract
            LOOP_RULES["*"] = rule
            try:
                out = v.resolve(v.call(f, pt.Part(P)))
            finally:
                LOOP_RULES.pop("*", None)
            if isinstance(out, pt.Part) and not ran:
                v.ensure("returned as it is only when nothing lies beyond the pole", z3.And(out.id == P, OKS(P)))
                return
            if not ran:
                raise Unsupported("no loop over the parts")
            if mode != "end":
                return
            s = pt.pieces(out)
            m, G, w = ran["end"]
            _, dst, csrc = W["conv"] if "conv" in W else (None, lambda x: x, lambda x: x)
            inst = lambda *x: v.instances(w, dst(w), *[y for z in x for y in (z, csrc(z))])
            coverage(v, "", s, COV(P), [w, dst(w)], "end", inst)
            t = z3.Int("t")
            v.assume(z3.And(t >= 0, t < s.n))
            e = s.get(t).id
            v.ensure("no piece beyond the pole or the antimeridian", z3.And(LONOK(e), OKS(e)), hints=inst(t))
            v.ensure("nor beyond the other pole, if the polygon was not", z3.Implies(had_other, other(e)), hints=inst(t))
        for mode in ("start", "step", "end"):
            V.vc(f"splitting at the {side} pole: {dict(start='before the loop', step='one step of the loop', end='after the loop')[mode]}", lambda v, mode=mode, b=body_loop: b(v, mode))

    # -- the three splitting functions on a multi-polygon: the pieces of its parts
    for f in (utils._split_polygon_north_pole, utils._split_polygon_south_pole, utils._split_polygon_antimeridian):
        def body_multi(v, f=f):
            n, G, RS = v.int("parts", ge=0).e, z3.Function("given", I, I), z3.Function("result_of", I, I)
            a = z3.Int("qa")
            v.assume(z3.ForAll([a], z3.And(pt.MN(a) >= 0, pt.KIND(a) >= 0, pt.KIND(a) <= 1), patterns=[pt.MN(a)]))
            v.assume(z3.ForAll([a], z3.And(pt.KIND(a) >= 0, pt.KIND(a) <= 1), patterns=[pt.KIND(a)]))
            CONTRACTS[name(f)] = lambda interp, a, kw: pt.Either(RS(a[0].id)) if type(a[0]) is pt.Part else NotImplemented
            out = v.resolve(v.call(f, pt.GColl(Seq(n, lambda j: pt.Part(G(j))), geo.MultiPolygon)))
            s = pt.pieces(out)
            i, m, t = z3.Ints("i m t")
            r = RS(G(i))
            v.assume(z3.And(i >= 0, i < n, m >= 0))
            at = lambda e: z3.Or(*[z3.And(q >= 0, q < s.n, s.get(q).id == e) for q in pt.places(s, [i, m])])
            v.ensure("the polygon a part gives is kept", z3.Implies(pt.KIND(r) == 0, at(r)))
            v.ensure("every piece a part gives is kept", z3.Implies(z3.And(pt.KIND(r) == 1, m < pt.MN(r)), at(pt.MG(r, m))))
            v.assume(z3.And(t >= 0, t < s.n))
            e = s.get(t).id
            v.ensure("nothing else is kept", z3.Exists([i, m], z3.And(i >= 0, i < n, z3.Or(z3.And(pt.KIND(r) == 0, r == e), z3.And(pt.KIND(r) == 1, m >= 0, m < pt.MN(r), pt.MG(r, m) == e)))))
        V.vc(f"{f.__name__} of a multi-polygon", body_multi)

    # -- the antimeridian: wrapping a collection
    def body_wrap_anti_multi(v):
        n, G, WR = v.int("pieces", ge=0).e, z3.Function("given", I, I), z3.Function("wrapped_anti", I, I)
        CONTRACTS[name(utils._wrap_polygon_over_antimeridian)] = lambda interp, a, kw: pt.Part(WR(a[0].id)) if type(a[0]) is pt.Part else NotImplemented
        s = pt.pieces(v.call(utils._wrap_polygon_over_antimeridian, pt.GColl(Seq(n, lambda j: pt.Part(G(j))), geo.MultiPolygon)))
        v.ensure("contract: as many pieces", s.n == n)
        v.assume(z3.And(k >= 0, k < n))
        v.ensure("piece by piece", s.get(k).id == WR(G(k)))
    V.vc("wrapping pieces over the antimeridian", body_wrap_anti_multi)

    # -- split_polygon: the three in an order in which each finds what it needs
    def body_whole(v):
        has = z3.Bool("input_covers_p")
        stage = []

        def step(nm, gives, needs):
            def c(interp, a, kw):
                x = a[0]
                d = x.done if isinstance(x, Whole) else frozenset()
                core.oblig(f"contract: {nm} is given pieces in the range it needs", z3.BoolVal(needs <= d))
                stage.append(nm)
                # what it gives covers p exactly when what it was given does (contracts above)
                return Whole(x.cov, d | gives)
            return c

        class Whole(Sym):
            def __init__(self, cov, done, valid=None, kind=geo.MultiPolygon):
                self.cov, self.done, self.valid, self.kind = cov, done, core.fbool("valid") if valid is None else valid, kind

            @property
            def is_valid(self):
                return self.valid

            def _isinstance(self, c):
                return c is self.kind

        CONTRACTS["tatc.utils._split_polygon_antimeridian"] = step("splitting at the antimeridian", frozenset(["lon"]), frozenset())
        CONTRACTS["tatc.utils._split_polygon_south_pole"] = step("splitting at the south pole", frozenset(["south"]), frozenset(["lon"]))
        CONTRACTS["tatc.utils._split_polygon_north_pole"] = step("splitting at the north pole", frozenset(["north"]), frozenset(["lon"]))
        mixed = z3.Bool("repaired_to_a_mixed_collection")

        def repair(interp, a, kw):
            ctx.trust("shapely make_valid: a valid geometry of the same points, possibly a collection")
            x = a[0]
            return Whole(x.cov, x.done, True, geo.GeometryCollection if core.decide(mixed) else geo.MultiPolygon)

        def conv(interp, a, kw):
            return Whole(a[0].cov, a[0].done, True)
        CONTRACTS[CONV] = conv
        MODELS[utils.make_valid] = repair
        out = v.resolve(v.call(split_polygon, Whole(has, frozenset())))
        if not isinstance(out, Whole):
            raise Unsupported("result of another kind")
        v.ensure("contract: what is covered is unchanged", z3.BoolVal(out.cov is has))
        v.ensure("contract: no piece beyond the antimeridian or a pole", z3.BoolVal(out.done == {"lon", "south", "north"}))
        v.ensure("contract: a polygon or multi-polygon", z3.BoolVal(out.kind is geo.MultiPolygon))
        v.ensure("valid", core.zb(out.valid))
    V.vc("split_polygon", body_whole)

    # -- normalize_geometry: every geometry split, row by row
    SPLIT = z3.Function("split_of", I, I)

    def norm(v, g):
        CONTRACTS["tatc.utils.split_polygon"] = lambda interp, a, kw: pt.Part(SPLIT(a[0].id)) if isinstance(a[0], pt.Part) else NotImplemented
        out = v.resolve(v.call(normalize_geometry, g))
        if not isinstance(out, TFrame):
            raise Unsupported("result of another kind")
        return out

    def body_norm_one(v, multi):
        P = z3.Int("P")
        x = Multi(P) if multi else pt.Part(P)
        try:
            out = norm(v, x)
        except SymRaise as r:
            if getattr(r.cls, "__name__", r.cls) != "ValueError":
                raise
            v.ensure("refused only when invalid", z3.Not(pt.VALIDP(P)))
            return
        v.ensure("an invalid geometry is refused", pt.VALIDP(P))
        v.ensure("one row", out.n == 1)
        v.ensure("the geometry split", out.cols["geometry"](z3.IntVal(0)).id == SPLIT(P))

    class Multi(pt.Part):
        def _isinstance(self, c):
            return c is geo.MultiPolygon

        def _subst(self, p):
            return Multi(z3.substitute(self.id, *p))
    V.vc("normalize_geometry of a polygon", lambda v: body_norm_one(v, False))
    V.vc("normalize_geometry of a multi-polygon", lambda v: body_norm_one(v, True))

    def body_norm_table(v, series):
        n, G, A = v.int("rows", ge=1).e, z3.Function("given", I, I), z3.Function("attribute", I, R)
        g = Series(Seq(n, lambda j: pt.Part(G(j)))) if series else TFrame(n, {"geometry": lambda j: pt.Part(G(j)), "name": lambda j: Num(A(j))}, "range")
        out = norm(v, g)
        v.ensure("as many rows", out.n == n)
        v.assume(z3.And(k >= 0, k < n))
        v.ensure("row by row, the geometry split", out.cols["geometry"](k).id == SPLIT(G(k)))
        if not series:
            v.ensure("the other columns as they were", z3.And(z3.BoolVal(set(out.cols) == {"geometry", "name"}), equal(out.cols["name"](k), Num(A(k)))))
    V.vc("normalize_geometry of a series", lambda v: body_norm_table(v, True))
    V.vc("normalize_geometry of a table", lambda v: body_norm_table(v, False))


def _apps(e, prefix):
    out, seen, st = [], set(), [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().name().startswith(prefix) and t.num_args():
            out.append(t)
        st.extend(t.children())
    return out


def _ints_named(e, prefixes):
    out, seen, st = [], set(), [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.sort() == z3.IntSort() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(t.decl().name().startswith(x) for x in prefixes):
            out.append(t)
        st.extend(t.children())
    return out
