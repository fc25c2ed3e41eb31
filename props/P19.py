"""P19 sample points and grid cells."""
import math
import numpy as np
import geopandas as gpd
import z3
from shapely import geometry as geo, affinity
from shapely.strtree import STRtree
from vf import core, seq, geo as vgeo
from vf.core import Num, Unsupported, SymRaise, equal, zr
from vf.seq import Seq, FlatSeq, zi
from vf.interp import SObj
from vf.geo import GPoint, GPoly, GOp, is_box
from vf.session import Fail, Skip, expect, expect_close
from tatc import constants, utils
from tatc.generation import points as gp, cells as gc
from tatc.generation.points import generate_fibonacci_lattice_points, generate_equally_spaced_points
from tatc.generation.cells import generate_equally_spaced_cells

ASSUMPTIONS = ["shapely/geopandas: Point, Polygon, bounds, is_valid, clip (rows meeting the mask; polygons cut), convex_hull",
               "numba njit computes what the decorated Python function computes",
               "reals for floats: a spacing whose 360/spacing lies within rounding of a half-integer is decided by rounding",
               "domain: masks between -180 and 540 degrees of longitude spanning at most one turn"]
R_E = constants.EARTH_MEAN_RADIUS


def theta_of(d):
    return math.degrees(d / R_E)


def wrap(x):
    return (x + 180) % 360 - 180


def mask_of(m):
    polys = [geo.Polygon(s, h) for s, h in m]
    return polys[0] if len(polys) == 1 else geo.MultiPolygon(polys)


def check_fib(i):
    d, h = i["d"], i["h"]
    f = generate_fibonacci_lattice_points(d, h)
    n = len(f)
    expect(n == utils.compute_number_samples(d), f"{n} points instead of {utils.compute_number_samples(d)}", "count")
    expect(list(f.point_id) == list(range(n)), "identifiers are not consecutive from zero", "ids")
    x, y = f.geometry.x.values, f.geometry.y.values
    expect(((x >= -180) & (x <= 180)).all(), f"longitudes {x.min()}..{x.max()}", "longitude")
    expect((y > -90).all() and (y < 90).all(), f"latitudes {y.min()}..{y.max()}", "poles")
    expect((np.diff(y) > 0).all(), "latitudes do not increase", "order")
    if n:
        expect((np.abs(f.geometry.z.values - h) < 1e-9).all(), "elevation", "elevation")
    # a lattice of equal areas: sines of latitudes are evenly spaced, longitudes advance by the golden ratio
    if n >= 3:
        s = np.sin(np.radians(y))
        expect(np.allclose(np.diff(s), s[1] - s[0], atol=1e-9), "sines of latitude are not evenly spaced", "lattice")
        g = 360 / ((1 + math.sqrt(5)) / 2)
        st = (np.diff(x) - g + 180) % 360 - 180
        expect(np.abs(st).max() < 1e-6, "longitudes do not advance by the golden section of a turn", "lattice")
    if i["mask"]:
        m = mask_of(i["mask"])
        if not m.is_valid:
            try:
                generate_fibonacci_lattice_points(d, h, m)
            except ValueError:
                return
            raise Fail("invalid mask accepted", "invalid-mask")
        r = generate_fibonacci_lattice_points(d, h, m)
        expect(list(r.index) == list(range(len(r))), "row labels are not 0..n-1", "labels")
        compare_points(r, {k: (a, b) for k, (a, b) in enumerate(zip(x, y))}, m, h)


def turns(x):
    return (x, x + 360, x - 360)


def compare_points(r, allp, m, h):
    b = m.boundary
    seen = {}
    for pid, g in zip(r.point_id, r.geometry):
        expect(pid not in seen, f"point {pid} occurs twice", "ids")
        expect(pid in allp, f"point {pid} is not a point of the global set", "ids")
        seen[pid] = g
        x, y = allp[pid]
        expect(abs(wrap(g.x - x)) < 1e-7 or abs(abs(wrap(g.x - x)) - 360) < 1e-7, f"point {pid} at longitude {g.x}, in the global set {x}", "coordinates")
        expect(abs(g.y - y) < 1e-7 and abs(g.z - h) < 1e-9, f"point {pid} at {g.wkt}, in the global set {x} {y}", "coordinates")
    for pid, (x, y) in allp.items():
        ins, near = False, False
        for t in turns(x):
            q = geo.Point(t, y)
            if b.distance(q) < 1e-6:
                near = True
            elif m.intersects(q):
                ins = True
        if near:
            continue
        expect(ins == (pid in seen), f"point {pid} ({x:.4f}, {y:.4f}) {'lies' if ins else 'does not lie'} in the region but is {'kept' if pid in seen else 'dropped'}", "region")


def check_grid(i):
    d, h = i["d"], i["h"]
    th = theta_of(d)
    for t in (360 / th, 180 / th):
        if abs(t - math.floor(t) - 0.5) < 1e-6:
            raise Skip("tie")
    p, c = generate_equally_spaced_points(d, h), generate_equally_spaced_cells(d, h)
    ids = list(c.cell_id)
    expect(len(set(ids)) == len(ids) and all(k >= 0 for k in ids), f"spacing {th:.6f} deg: {len(ids)} cells have {len(set(ids))} identifiers", "ids")
    expect(len(set(p.point_id)) == len(p) and all(k >= 0 for k in p.point_id), f"spacing {th:.6f} deg: {len(p)} points have {len(set(p.point_id))} identifiers", "ids")
    cells = dict(zip(ids, c.geometry))
    pts = dict(zip(p.point_id, p.geometry))
    expect(set(cells) == set(pts), "points and cells have different identifiers", "ids")
    B = {k: g.bounds for k, g in cells.items()}
    for k, g in cells.items():
        w, s, e, n = B[k]
        q = pts[k]
        expect(abs(q.x - (w + e) / 2) < 1e-7 and abs(q.y - (s + n) / 2) < 1e-7, f"point {k} at {q.wkt} is not the centre of cell {g.wkt}", "centre")
        expect(abs(g.area - (e - w) * (n - s)) < 1e-9 * max(1, g.area), f"cell {k} is not a box: {g.wkt}", "cell")
        expect(abs(e - w - th) < 1e-9 and abs(n - s - th) < 1e-9, f"cell {k} is {e - w} by {n - s}, spacing {th}", "size")
    zs = {z for g in list(cells.values())[:3] for *_, z in g.exterior.coords} | {g.z for g in list(pts.values())[:3]}
    expect(all(abs(z - h) < 1e-9 for z in zs), f"elevations {zs}", "elevation")
    if cells:
        w, s, e, n = (min(b[0] for b in B.values()), min(b[1] for b in B.values()), max(b[2] for b in B.values()), max(b[3] for b in B.values()))
        expect(abs(w + 180) < 1e-9 and abs(s + 90) < 1e-9, f"grid starts at {w} {s}", "tiling")
        expect(abs(e - 180) <= th / 2 + 1e-9 and abs(n - 90) <= th / 2 + 1e-9, f"grid ends at {e} {n} for spacing {th}", "tiling")
        tot = math.fsum(g.area for g in cells.values())
        expect(abs(tot - (e - w) * (n - s)) < 1e-7 * tot, "the cells do not fill the grid area exactly once", "tiling")
        tree = STRtree(list(cells.values()))
        for fx, fy in i["probe"]:
            q = geo.Point(w + fx * (e - w), s + fy * (n - s))
            hits = [k for k in tree.query(q, "intersects")]
            expect(len(hits) >= 1, f"no cell at {q.wkt}", "tiling")
    if i["mask"]:
        m = mask_of(i["mask"])
        if not m.is_valid:
            for f in (generate_equally_spaced_points, generate_equally_spaced_cells):
                try:
                    f(d, h, m)
                except ValueError:
                    continue
                raise Fail("invalid mask accepted", "invalid-mask")
            return
        if m.bounds[2] > 180 and abs(360 / th - round(360 / th)) > 1e-6:
            return    # beyond the antimeridian only a grid dividing the turn continues evenly
        rp = generate_equally_spaced_points(d, h, m)
        expect(list(rp.index) == list(range(len(rp))), "row labels are not 0..n-1", "labels")
        mb = m.bounds
        tie = [abs(t - math.floor(t) - 0.5) < 1e-6 for t in ((mb[0] + 180) / th, (mb[2] + 180) / th, (mb[1] + 90) / th, (mb[3] + 90) / th)]
        if any(tie):
            return
        over = m.bounds[3] > 90 - 1e-9 or m.bounds[2] > 180 - 1e-9    # may reach past the last row or column
        compare_points(rp, {k: (g.x, g.y) for k, g in pts.items()}, m, h)
        rc = generate_equally_spaced_cells(d, h, m)
        seen = {}
        for k, g in zip(rc.cell_id, rc.geometry):
            expect(k not in seen, f"cell {k} occurs twice", "ids")
            expect(k in cells, f"cell {k} is not a cell of the global set", "ids")
            seen[k] = g
        for k, g in cells.items():
            q = pts[k]
            best = None
            for t in (0, 360, -360):
                x = q.x + t
                if min(abs(x - mb[0]), abs(x - mb[2]), abs(q.y - mb[1]), abs(q.y - mb[3])) < 1e-6:
                    best = "tie"
                    break
                if mb[0] < x < mb[2] and mb[1] < q.y < mb[3]:
                    best = affinity.translate(g, t, 0).intersection(m)
            if best == "tie" or best is not None and best.area < 1e-7:
                continue
            expect((best is not None) == (k in seen), f"cell {k} ({g.wkt}) {'meets' if best is not None else 'does not meet'} the region but is {'kept' if k in seen else 'dropped'}", "region")
            if best is not None:
                want = best.convex_hull
                expect(seen[k].symmetric_difference(want).area < 1e-6 * max(1, want.area), f"cell {k} is {seen[k].wkt}, the part of it in the region is {want.wkt}", "geometry")


def check_strips(i):
    d, h, kind = i["d"], i["h"], i["kind"]
    th = theta_of(d)
    c = generate_equally_spaced_cells(d, h, None, kind)
    g = generate_equally_spaced_cells(d, h)
    expect(len(set(c.cell_id)) == len(c) and (c.cell_id >= 0).all(), "strip identifiers are not distinct", "ids")
    ax = 1 if kind == "lat" else 0
    want = sorted({(round(q.bounds[ax], 9), round(q.bounds[ax + 2], 9)) for q in g.geometry})
    got = sorted((round(q.bounds[ax], 9), round(q.bounds[ax + 2], 9)) for q in c.geometry)
    expect(len(want) == len(got) and np.allclose(want, got), f"strips {got[:3]} are not the rows or columns {want[:3]} of the grid", "strips")
    lo, hi = ((-180, 180) if kind == "lat" else (-90, 90))
    for q in c.geometry:
        b = q.bounds
        expect(abs(b[1 - ax] - lo) < 1e-9 and abs(b[3 - ax] - hi) < 1e-9 and abs(q.area - (b[2] - b[0]) * (b[3] - b[1])) < 1e-6, f"strip {q.wkt}", "strips")
        expect(all(abs(z - h) < 1e-9 for *_, z in q.exterior.coords), "elevation", "elevation")
    if i.get("mask"):
        m = mask_of(i["mask"])
        if not m.is_valid or m.bounds[2] > 180:
            return
        b = m.bounds
        r = generate_equally_spaced_cells(d, h, m, kind)
        expect(list(r.index) == list(range(len(r))) and r.cell_id.is_unique, "row labels or identifiers of masked strips", "ids")
        seen = dict(zip(r.cell_id, r.geometry))
        expect(set(seen) <= set(c.cell_id), "a masked strip is no strip of the globe", "ids")
        for k, q in zip(c.cell_id, c.geometry):
            lo, hi = q.bounds[ax], q.bounds[ax + 2]
            x = (lo + hi) / 2
            if min(abs(x - b[ax]), abs(x - b[ax + 2])) < 1e-6:
                continue
            part = q.intersection(m)
            if part.area < 1e-7:
                continue
            want = b[ax] < x < b[ax + 2]
            expect(want == (k in seen), f"strip {k} centred at {x} is {'dropped' if want else 'kept'}, the mask spans {b[ax]} to {b[ax + 2]}", "region")
            if want:
                hull = part.convex_hull
                expect(seen[k].symmetric_difference(hull).area < 1e-6 * max(1, hull.area), f"strip {k} is {seen[k].wkt}, the part of it in the region is {hull.wkt}", "geometry")


def rmask(r):
    out = []
    kind = r.choice(["in", "in", "in", "over", "wide", "multi", "hole", "bad"])
    def blob(cx, cy, s):
        k = r.randrange(3, 9)
        a = sorted(r.uniform(0, 2 * math.pi) for _ in range(k))
        return [[cx + s * r.uniform(0.3, 1) * math.cos(t), max(-89.9, min(89.9, cy + s * 0.6 * r.uniform(0.3, 1) * math.sin(t)))] for t in a]
    s = r.choice([5, 20, 60])
    if kind == "over":
        return [[[[x if x > 0 else x, y] for x, y in blob(r.uniform(150, 230), r.uniform(-50, 50), min(s, 60))], []]]
    if kind == "wide":
        w = r.uniform(-170, 100)
        e = min(w + 355, r.uniform(170, 400))
        if e <= w:
            e = w + 50
        a, b = sorted([r.uniform(-85, 85), r.uniform(-85, 85)])
        return [[[[w, a], [e, a], [e, b + 1], [w, b + 1]], []]]
    cx, cy = r.uniform(-110, 110), r.uniform(-55, 55)
    m = [blob(cx, cy, s), []]
    if kind == "hole":
        return [[[[cx - s, max(-89, cy - s)], [cx + s, max(-89, cy - s)], [cx + s, min(89, cy + s)], [cx - s, min(89, cy + s)]], [[[cx - s / 2, cy - s / 4], [cx + s / 3, cy - s / 4], [cx, cy + s / 4]]]]]
    if kind == "multi":
        return [[[[-170, -10], [-150, -12], [-155, 30]], []], [[[150, -30], [179, -30], [179.5, 5], [160, 10]], []]]
    if kind == "bad":
        return [[[[cx, cy], [cx + s, cy + 10], [cx + s, cy], [cx, cy + 10]], []]]
    return [m]


def concrete(C):
    def gf(r):
        return dict(d=r.choice([1e6, 2e6, r.uniform(5e5, 6e6)]), h=r.choice([0.0, 500.0, r.uniform(0, 9000)]), mask=rmask(r) if r.random() < 0.7 else None)
    C.cases("fibonacci", gf, check_fib, 60, "spacings 500..6000 km, masks of all kinds")

    def gg(r):
        k = r.randrange(4, 60)
        th = r.choice([360 / k, 360 / (k + r.uniform(0.01, 0.99)), 360 / (k + r.uniform(0.5, 0.99)), r.uniform(6, 60)])
        return dict(d=math.radians(th) * R_E, h=r.choice([0.0, 500.0, 1234.5]), mask=rmask(r) if r.random() < 0.7 else None, probe=[[r.random(), r.random()] for _ in range(10)])
    C.cases("grid", gg, check_grid, 80, "spacings 6..90 degrees dividing the turn or not, masks of all kinds", share=0.7)

    def gs(r):
        k = r.randrange(4, 40)
        th = r.choice([360 / k, r.uniform(9, 60)])
        return dict(d=math.radians(th) * R_E, h=r.choice([0.0, 700.0]), kind=r.choice(["lat", "lon"]), mask=rmask(r) if r.random() < 0.7 else None)
    C.cases("strips", gs, check_strips, 60, "latitude and longitude strips, masks of all kinds")


# ------------------------------------------------------------------ deductive
def theorems(v):
    i, j, n = z3.Ints("ti tj tn")
    t, x, y = z3.Reals("tt tx ty")
    return dict(
        mod=v.theorem("a remainder is at least 0 and below a positive divisor; a number below the divisor is its own remainder", [i, n],
                      z3.And(z3.Implies(n > 0, z3.And(i % n >= 0, i % n < n)), z3.Implies(z3.And(i >= 0, i < n), i % n == i))),
        mul=v.theorem("integer multiples grow", [i, j, n], z3.Implies(z3.And(n >= 0, i + 1 <= j), n * i + n <= n * j)),
        step=v.theorem("real multiples grow", [i, j, t], z3.Implies(z3.And(t > 0, i + 1 <= j), z3.ToReal(i) * t + t <= z3.ToReal(j) * t)),
        quo=v.theorem("dividing by a positive step", [x, y, t], z3.And(z3.Implies(t > 0, z3.And((x / t <= y) == (x <= y * t), (x / t >= y) == (x >= y * t), (x / t < y) == (x < y * t), (x / t > y) == (x > y * t))))),
    )


def deductive(V):
    I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
    ri = z3.ToReal

    def unmasked(v):
        th, t2, h = v.real("theta_lon", gt=0), v.real("theta_lat", gt=0), v.real("h")
        idx = v.call(gp._generate_equally_spaced_indices, th, t2)
        if not isinstance(idx, FlatSeq):
            raise Unsupported("indices of another shape")
        idx._ensure()
        v.assume(idx.inner(z3.IntVal(0)).n >= 1)     # domain: the grid has at least one column
        return th, t2, h, idx

    def body_rows(v):
        th, t2, h, idx = unmasked(v)
        p = v.call(gp._generate_equally_spaced_points, th, t2, h)
        c = v.call(gc._generate_equally_spaced_cells, th, t2, h)
        T, U = th.e, t2.e
        a, b = z3.Ints("a b")
        v.ensure("as many points as cells", p.n == c.n)
        v.assume(z3.And(a >= 0, a < p.n))
        q, g = p.cols["geometry"](a), c.cols["geometry"](a)
        x, y = zr(q.c[0]), zr(q.c[1])
        ia, ib = zi(p.cols["point_id"](a)), zi(p.cols["point_id"](b))
        v.ensure("cell and point of a row have the same identifier", ia == zi(c.cols["cell_id"](a)))
        v.ensure("the cell is the box one step wide about its point", is_box(g, x - T / 2, y - U / 2, x + T / 2, y + U / 2))
        v.ensure("elevations", z3.And(equal(q.c[2], h), *[equal(k[2], h) for k in g.shell]))
        tm = theorems(v)
        n = idx.inner(z3.IntVal(0)).n
        A, J = [idx.j(a), idx.j(b)], [idx.o(a), idx.o(b)]
        # number of columns, as used in the identifiers
        hints = v.instances(a, b, (a, b)) + [tm["mod"](k, n) for k in A] + [tm["mul"](J[0], J[1], n), tm["mul"](J[1], J[0], n), tm["mul"](z3.IntVal(0), J[0] + 1, n)]
        v.ensure("identifiers are not negative", ia >= 0, hints=hints)
        v.assume(z3.And(a < b, b < p.n))
        v.ensure("identifiers of two rows differ", ia != ib, hints=hints)
    V.vc("whole grid: points and cells row by row", body_rows)

    def body_tiling(v):
        th, t2, h, idx = unmasked(v)
        c = v.call(gc._generate_equally_spaced_cells, th, t2, h)
        p = v.call(gp._generate_equally_spaced_points, th, t2, h)
        T, U = th.e, t2.e
        n, m = idx.inner(z3.IntVal(0)).n, zi(idx.outer_n)
        tm = theorems(v)
        X, Y = z3.Real("X"), z3.Real("Y")
        qs = [tm["quo"](core.rv(360), k, T) for k in (ri(n) - core.rv(0.5), ri(n) + core.rv(0.5))] + [tm["quo"](core.rv(180), k, U) for k in (ri(m) - core.rv(0.5), ri(m) + core.rv(0.5))]
        v.ensure("columns reach the antimeridian to half a step", z3.And(ri(n) * T - 360 <= T / 2, 360 - ri(n) * T <= T / 2), hints=qs)
        v.ensure("rows reach the pole to half a step", z3.And(ri(m) * U - 180 <= U / 2, 180 - ri(m) * U <= U / 2), hints=qs)
        # any location of the grid area
        i, j = z3.ToInt((X + 180) / T), z3.ToInt((Y + 90) / U)
        v.assume(z3.And(X >= -180, X < -180 + ri(n) * T, Y >= -90, Y < -90 + ri(m) * U))
        r = idx.r(j, i)
        qq = [tm["quo"](X + 180, k, T) for k in (ri(i), ri(i) + 1, ri(n), z3.RealVal(0))] + [tm["quo"](Y + 90, k, U) for k in (ri(j), ri(j) + 1, ri(m), z3.RealVal(0))]
        q = p.cols["geometry"](r)
        inst = v.instances((j, i), r)
        v.ensure("every location of the grid area is in some cell", z3.And(r >= 0, r < p.n, zr(q.c[0]) - T / 2 <= X, X < zr(q.c[0]) + T / 2, zr(q.c[1]) - U / 2 <= Y, Y < zr(q.c[1]) + U / 2), hints=qq + inst)
        a, b = z3.Ints("a b")
        v.assume(z3.And(a >= 0, a < p.n, b >= 0, b < p.n, a < b))
        for k in (a, b):
            q = p.cols["geometry"](k)
            v.assume(z3.And(zr(q.c[0]) - T / 2 < X, X < zr(q.c[0]) + T / 2, zr(q.c[1]) - U / 2 < Y, Y < zr(q.c[1]) + U / 2))
        A, J = [idx.j(a), idx.j(b)], [idx.o(a), idx.o(b)]
        v.ensure("no location is inside two cells", z3.BoolVal(False), hints=v.instances(a, b, (a, b)) + [tm["step"](A[0], A[1], T), tm["step"](A[1], A[0], T), tm["step"](J[0], J[1], U), tm["step"](J[1], J[0], U)])
    V.vc("whole grid: cells tile", body_tiling)

    def mask_sym(v, over):
        w, s, e, n = (v.real(k) for k in ("west", "south", "east", "north"))
        v.assume(z3.And(w.e >= -180, w.e <= e.e, s.e >= -90, s.e <= n.e, n.e <= 90, e.e <= (540 if over else 180), e.e - w.e <= 360, e.e > -180))
        return SObj(geo.Polygon, dict(is_valid=True, bounds=(w, s, e, n))), w.e, s.e, e.e, n.e

    def clipped(v, out, mask):
        if not hasattr(out, "clipped"):
            raise Unsupported("not a clipped table")
        fr, s, meets, m = out.clipped
        v.ensure("clipped to the mask", z3.BoolVal(m is mask))
        return fr, s, meets

    def body_masked(v, cells):
        th, t2, h, idx = unmasked(v)
        mask, w, s, e, nn = mask_sym(v, False)
        T, U = th.e, t2.e
        f = gc._generate_equally_spaced_cells if cells else gp._generate_equally_spaced_points
        name = "cell_id" if cells else "point_id"
        g0 = v.call(f, th, t2, h)
        p0 = v.call(gp._generate_equally_spaced_points, th, t2, h)
        out = v.call(f, th, t2, h, mask)
        idx1 = v.call(gp._generate_equally_spaced_indices, th, t2, mask)
        idx1._ensure()
        fr, sel, meets = clipped(v, out, mask)
        tm = theorems(v)
        r = z3.Int("r")       # row of the global set whose point lies within the bounds of the mask
        v.assume(z3.And(r >= 0, r < g0.n))
        q = p0.cols["geometry"](r)
        x, y = zr(q.c[0]), zr(q.c[1])
        inb = z3.And(w < x, x < e, s < y, y < nn)
        i0, j0 = zi(idx.get(r)[0]), zi(idx.get(r)[1])
        ilo, jlo = zi(idx1.inner(z3.IntVal(0)).get(z3.IntVal(0))[0]), zi(idx1.inner(z3.IntVal(0)).get(z3.IntVal(0))[1])
        k = idx1.r(j0 - jlo, i0 - ilo)
        same = lambda a, b: z3.And(equal(fr.cols[name](a), g0.cols[name](b)), *[equal(c, d) for c, d in zip(coords(fr.cols["geometry"](a)), coords(g0.cols["geometry"](b)))])
        n = idx.inner(z3.IntVal(0)).n
        hx = [tm["quo"](a + 180, ri(i0) + core.rv(0.5), T) for a in (w, e)] + [tm["quo"](a + 90, ri(j0) + core.rv(0.5), U) for a in (s, nn)]
        hints = hx + v.instances(r, (j0 - jlo, i0 - ilo), k)
        v.lemma("index of a global row centred within the bounds: row", z3.Implies(z3.And(s < y, y < nn), z3.And(j0 - jlo >= 0, j0 - jlo < idx1.outer_n)), hints=hx + v.instances(r))
        v.lemma("index of a global row centred within the bounds: column", z3.Implies(z3.And(w < x, x < e), z3.And(i0 - ilo >= 0, i0 - ilo < idx1.inner(z3.IntVal(0)).n)), hints=hx + v.instances(r))
        v.lemma("a global row centred within the bounds is considered", z3.Implies(inb, z3.And(k >= 0, k < fr.n, idx1.o(k) == j0 - jlo, idx1.j(k) == i0 - ilo)), hints=v.instances((j0 - jlo, i0 - ilo), k))
        v.ensure("as in the global set", z3.Implies(inb, same(k, r)), hints=v.instances(r, k))
        # and nothing else: each considered row is a global row centred within the bounds (up to ties)
        a = z3.Int("a")
        v.assume(z3.And(a >= 0, a < fr.n))
        i1, j1 = zi(idx1.get(a)[0]), zi(idx1.get(a)[1])
        b = idx.r(j1, i1)
        qb = p0.cols["geometry"](b)
        xb, yb = zr(qb.c[0]), zr(qb.c[1])
        hx = [tm["quo"](c + 180, ri(i1) + core.rv(0.5), T) for c in (w, e)] + [tm["quo"](c + 90, ri(j1) + core.rv(0.5), U) for c in (s, nn)]
        c360, c180 = core.rv(360), core.rv(180)
        # rounding is monotone: the last index of the mask is at most the last of the globe
        d, u = z3.Reals("td tu")
        hm = [tm["quo"](c + 180, (c360) / T, T) for c in (w, e)] + [tm["quo"](c + 90, c180 / U, U) for c in (s, nn)] + [tm["quo"](c + 180, z3.RealVal(0), T) for c in (w, e)] + [tm["quo"](c + 90, z3.RealVal(0), U) for c in (s, nn)] + [z3.Implies(T > 0, c360 / T * T == c360), z3.Implies(U > 0, c180 / U * U == c180)]
        hints = v.instances(a, (j1, i1), b) + hx + hm
        v.ensure("only global rows are considered", z3.And(b >= 0, b < g0.n, same(a, b)), hints=hints)
        v.ensure("centred within the bounds", z3.And(w <= xb, xb <= e, s <= yb, yb <= nn), hints=hints)
        # result rows
        t = z3.Int("t")
        v.assume(z3.And(t >= 0, t < out.n))
        og = out.cols["geometry"](t)
        if cells:
            v.ensure("each cell is the hull of its part in the mask", z3.BoolVal(isinstance(og, GOp) and og.op == "hull" and isinstance(og.g, GOp) and og.g.op == "clip"))
            og = og.g.g
        v.ensure("kept rows keep identifier and coordinates", z3.And(equal(out.cols[name](t), fr.cols[name](sel.src(t))), *[equal(c, d) for c, d in zip(coords(og), coords(fr.cols["geometry"](sel.src(t))))]))
        v.ensure("labels are 0..n-1", z3.BoolVal(out.index_ == "range"))
    V.vc("masked points", lambda v: body_masked(v, False))
    V.vc("masked cells", lambda v: body_masked(v, True))

    def body_over(v):
        """masks reaching over the antimeridian: the identifier is that of the column one turn to the west."""
        i, j, n = v.int("i"), v.int("j", ge=0), v.int("n", ge=1)
        th = v.real("theta", gt=0)
        v.assume(th.e * ri(n.e) == 360)
        a = v.call(gp._compute_equally_spaced_point_id, i, j, th, th)
        b = v.call(gp._compute_equally_spaced_point_id, i + n, j, th, th)
        x, m, k = z3.Reals("kx km kk")
        t = v.theorem("quotient of a product", [x, m], z3.Implies(z3.And(x > 0, x * m == 360), z3.RealVal(360) / x == m))
        p, q, r = z3.Ints("kp kq kr")
        m2 = v.theorem("remainders repeat after the divisor", [p, q, r], z3.Implies(z3.And(q > 0, r == q), (p + q) % r == p % r))
        from vf.models import round_
        row = round_(Num(z3.RealVal(360) / th.e)).e
        v.lemma("the row holds n points", row == n.e, hints=[t(th.e, ri(n.e))])
        v.ensure("same identifier one turn on", zi(a) == zi(b), hints=[m2(i.e, n.e, row), m2(i.e, row, row)])
    V.vc("identifiers over the antimeridian", body_over)

    def body_bad(v):
        mask = SObj(geo.Polygon, dict(is_valid=False, bounds=tuple(v.real(k) for k in "wsen")))
        d = v.real("d", gt=0)
        for f in (generate_fibonacci_lattice_points, generate_equally_spaced_points, generate_equally_spaced_cells):
            try:
                v.call(f, d, 0, mask)
            except SymRaise as ex:
                nm = ex.cls if isinstance(ex.cls, str) else getattr(ex.cls, "__name__", str(ex.cls))
                v.ensure("an invalid mask is a ValueError", z3.BoolVal(nm == "ValueError"))
                continue
            v.ensure("an invalid mask is refused", z3.BoolVal(False))
    V.vc("invalid masks", body_bad)

    def body_public(v, f, inner, nargs):
        d, h = v.real("d", gt=0), v.real("h")
        mask = SObj(geo.Polygon, dict(is_valid=True, bounds=tuple(v.real(k) for k in "wsen")))
        got = []
        from vf.interp import CONTRACTS
        CONTRACTS[inner] = lambda interp, a, k: got.append((a, k)) or 7
        v.call(f, d, h, mask)
        if len(got) != 1:
            raise Unsupported("another call structure")
        a, k = got[0]
        names = ["theta_longitude", "theta_latitude", "elevation", "mask", "strips"]
        A = dict(zip(names, a))
        A.update(k)
        want = d.e / core.rv(core.frac_of_float(R_E)) * 180 * core.IPI
        v.ensure("angular spacing is that of the distance on the mean sphere", z3.And(zr(A["theta_longitude"]) == want, zr(A["theta_latitude"]) == want))
        v.ensure("elevation and mask are passed on", z3.And(equal(A["elevation"], h), z3.BoolVal(A["mask"] is mask)))
    V.vc("spacing of points", lambda v: body_public(v, generate_equally_spaced_points, "tatc.generation.points._generate_equally_spaced_points", 4))
    V.vc("spacing of cells", lambda v: body_public(v, generate_equally_spaced_cells, "tatc.generation.cells._generate_equally_spaced_cells", 5))

    def body_strip(v, kind):
        th, t2, h, idx = unmasked(v)
        T, U = th.e, t2.e
        c = v.call(gc._generate_equally_spaced_cells, th, t2, h, None, kind)
        n = idx.inner(z3.IntVal(0)).n if kind == "lon" else zi(idx.outer_n)
        a, b = z3.Ints("a b")
        v.ensure("one strip per row or column", c.n == n)
        v.assume(z3.And(a >= 0, a < c.n))
        g = c.cols["geometry"](a)
        m180, m90 = z3.RealVal(180), z3.RealVal(90)
        box = (-m180, -90 + ri(a) * U, m180, -90 + ri(a) * U + U) if kind == "lat" else (-180 + ri(a) * T, -m90, -180 + ri(a) * T + T, m90)
        v.ensure("the strip covers its row or column", is_box(g, *box))
        v.ensure("elevation", z3.And(*[equal(k[2], h) for k in g.shell]))
        tm = theorems(v)
        ncol = idx.inner(z3.IntVal(0)).n
        hints = [tm["mod"](a, ncol), tm["mod"](b, ncol), tm["mod"](z3.IntVal(0), ncol), tm["mul"](a, b, ncol), tm["mul"](z3.IntVal(0), a + 1, ncol)]
        v.ensure("identifiers are not negative", zi(c.cols["cell_id"](a)) >= 0, hints=hints)
        v.assume(z3.And(a < b, b < c.n))
        v.ensure("identifiers differ", zi(c.cols["cell_id"](a)) != zi(c.cols["cell_id"](b)), hints=hints)
    V.vc("latitude strips", lambda v: body_strip(v, "lat"))
    V.vc("longitude strips", lambda v: body_strip(v, "lon"))

    def body_masked_strip(v, kind):
        th, t2, h, idx = unmasked(v)
        mask, w, s, e, nn = mask_sym(v, False)
        lat = kind == "lat"
        T, lo, hi, base, span = (t2.e, s, nn, -90, 180) if lat else (th.e, w, e, -180, 360)
        g0 = v.call(gc._generate_equally_spaced_cells, th, t2, h, None, kind)
        out = v.call(gc._generate_equally_spaced_cells, th, t2, h, mask, kind)
        fr, sel, meets = clipped(v, out, mask)
        tm = theorems(v)
        mid = lambda r: base + (ri(r) + core.rv(0.5)) * T
        a, r = z3.Ints("a r")
        v.assume(z3.And(a >= 0, a < fr.n))
        # each strip considered is a strip of the globe, as wide as the bounds of the mask
        g = fr.cols["geometry"](a)
        from vf.models import round_
        off = round_(Num((lo - base) / T)).e
        b = a + off
        box = (w, base + ri(b) * T, e, base + ri(b) * T + T) if lat else (base + ri(b) * T, s, base + ri(b) * T + T, nn)
        v.ensure("a strip of the grid within the bounds of the mask", is_box(g, *box))
        v.ensure("elevation", z3.And(*[equal(k[2], h) for k in g.shell]))
        whole = core.rv(span)
        hx = [tm["quo"](c - base, ri(b) + core.rv(0.5), T) for c in (lo, hi)]
        hm = [tm["quo"](c - base, whole / T, T) for c in (lo, hi)] + [tm["quo"](c - base, z3.RealVal(0), T) for c in (lo, hi)] + [z3.Implies(T > 0, whole / T * T == whole)]
        v.ensure("a strip of the global set", z3.And(b >= 0, b < g0.n), hints=hx + hm)
        v.ensure("with its identifier", equal(fr.cols["cell_id"](a), g0.cols["cell_id"](b)))
        v.ensure("centred within the bounds", z3.And(lo <= mid(b), mid(b) <= hi), hints=hx + hm)
        v.ensure("each strip is the hull of its part in the mask", z3.BoolVal(isinstance(out.cols["geometry"](a), GOp) and out.cols["geometry"](a).op == "hull" and isinstance(out.cols["geometry"](a).g, GOp) and out.cols["geometry"](a).g.op == "clip"))
        v.assume(z3.And(r >= 0, r < g0.n, lo < mid(r), mid(r) < hi))
        hr = [tm["quo"](c - base, ri(r) + core.rv(0.5), T) for c in (lo, hi)]
        v.ensure("every strip of the globe centred within the bounds is considered", z3.And(r - off >= 0, r - off < fr.n), hints=hr)
    V.vc("masked latitude strips", lambda v: body_masked_strip(v, "lat"))
    V.vc("masked longitude strips", lambda v: body_masked_strip(v, "lon"))

    # -------------------------------------------------------------- Fibonacci lattice
    LAT, LON = "tatc.generation.points._compute_fibonacci_lattice_point_latitude", "tatc.generation.points._compute_fibonacci_lattice_point_longitude"

    def body_fib_fns(v):
        n = v.int("n", ge=1)
        i, j = v.int("i", ge=0), v.int("j")
        v.assume(z3.And(i.e < j.e, j.e < n.e))
        a, b = v.call(gp._compute_fibonacci_lattice_point_latitude, i, n), v.call(gp._compute_fibonacci_lattice_point_latitude, j, n)
        q = z3.Int("q")
        x, y, u = z3.Reals("fx fy fu")
        t = v.theorem("fractions of a positive whole", [x, y, u], z3.Implies(u > 0, z3.And((x / u < y / u) == (x < y), (x / u < 1) == (x < u), (x / u > 0) == (x > 0))))
        s = lambda k: 2 * (ri(k) + 1)
        hints = [t(s(i.e), s(j.e), ri(n.e) + 2), t(s(j.e), s(i.e), ri(n.e) + 2)]
        for h_ in hints:
            v.assume(h_)
        v.ensure("strictly between the poles", z3.And(zr(a) > -90, zr(a) < 90, zr(b) > -90, zr(b) < 90))
        v.ensure("latitude increases with the index", zr(a) < zr(b))
        lo = v.call(gp._compute_fibonacci_lattice_point_longitude, i)
        lo = v.resolve(lo)
        v.ensure("longitude in [-180, 180]", z3.And(zr(lo) >= -180, zr(lo) <= 180))
    V.vc("lattice point", body_fib_fns)

    def body_fib(v, masked):
        d, h = v.real("d", gt=0), v.real("h")
        n = v.int("n", ge=1)
        LA, LO = z3.Function("lat", I, R), z3.Function("lon", I, R)
        from vf.interp import CONTRACTS
        CONTRACTS["tatc.utils.compute_number_samples"] = lambda interp, a, k: n
        CONTRACTS[LAT] = lambda interp, a, k: Num(LA(zi(a[0]))) if equal(a[1], n) is not None else None
        CONTRACTS[LON] = lambda interp, a, k: Num(LO(zi(a[0])))
        x = z3.Int("xx")
        v.assume(z3.ForAll([x], z3.And(LO(x) >= -180, LO(x) <= 180), patterns=[LO(x)]))
        if not masked:
            out = v.call(generate_fibonacci_lattice_points, d, h)
            fr = out
        else:
            mask, w, s, e, nn = mask_sym(v, True)
            out = v.call(generate_fibonacci_lattice_points, d, h, mask)
            fr, sel, meets = clipped(v, out, mask)
        if not masked:
            v.ensure("one point per index", fr.n == n.e)
        else:
            # completeness
            r = z3.Int("r")
            dom = z3.And(r >= 0, r < n.e, LA(r) > s, LA(r) < nn)
            inside = lambda t: z3.And(t > w, t < e)
            src = fr.source["point_id"]
            if not hasattr(src, "rank"):
                raise Unsupported("indices of another shape")
            src._ensure()
            p = src.rank(r)
            g = v.resolve(fr.cols["geometry"](p))
            hi = v.instances(r, p)
            for nm, t in (("as it is", LO(r)), ("one turn on", LO(r) + 360)):
                v.ensure(f"a lattice point within the bounds {nm} is considered there", z3.Implies(z3.And(dom, inside(t)), z3.And(p >= 0, p < fr.n, zi(fr.cols["point_id"](p)) == r, zr(g.c[0]) == t)), hints=hi)
        a = z3.Int("a")
        v.assume(z3.And(a >= 0, a < fr.n))
        k = zi(fr.cols["point_id"](a))
        q = fr.cols["geometry"](a)
        q = v.resolve(q)
        if not masked:
            v.ensure("identifiers are 0, 1, 2, ...", k == a)
            v.ensure("placed at its lattice location", z3.And(zr(q.c[0]) == LO(k), zr(q.c[1]) == LA(k), equal(q.c[2], h)))
            return
        inst = v.instances(a, k, fr.cols["point_id"](a).e)
        v.ensure("a global identifier", z3.And(k >= 0, k < n.e), hints=inst)
        v.ensure("placed at its lattice location or one turn east of it", z3.And(z3.Or(zr(q.c[0]) == LO(k), zr(q.c[0]) == LO(k) + 360), zr(q.c[1]) == LA(k), equal(q.c[2], h)), hints=inst)
        b = z3.Int("b")
        v.assume(z3.And(b > a, b < fr.n))
        v.ensure("identifiers increase", zi(fr.cols["point_id"](b)) > k, hints=v.instances(a, b, (a, b)))
    V.vc("lattice, whole globe", lambda v: body_fib(v, False))
    V.vc("lattice, masked", lambda v: body_fib(v, True))


def coords(g):
    if isinstance(g, GPoint):
        return g.c
    if isinstance(g, GPoly):
        return [x for c in g.shell for x in c]
    raise Unsupported("geometry")
