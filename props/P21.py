"""P21 instrument footprints and pixels."""
import inspect
import math
from datetime import datetime, timedelta, timezone
import numpy as np
import z3
from shapely import geometry as geo
from spiceypy.utils.exceptions import SpiceyError, NotFoundError
from skyfield.api import EarthSatellite, wgs84
from skyfield.framelib import itrs
from vf import core, seq, orb
from vf.core import Num, Sym, SBool, SymRaise, Unsupported, equal, zb, zr, ctx, subst
from vf.seq import Seq
from vf.interp import SObj, MODELS, METHOD_MODELS, CONTRACTS, is_sym
from vf.mat import Mat3, column
from vf.tmodel import SkyTime, STime
from vf.spec import M
from vf.session import Fail, Skip, expect
from tatc import constants, utils, config
from tatc.schemas.instrument import Instrument, PointedInstrument

UTC = timezone.utc
ASSUMPTIONS = [
    "spiceypy surfpt, recgeo, edlimb, nvp2pl and inelpl compute what their names say (uninterpreted; surfpt raises NotFoundError exactly when the ray misses); the concrete cases compare their use with an own ellipsoid oracle",
    "numeric rejections inside CSPICE (INVALIDELLIPSE on numerically round limbs) are outside the property",
    "skyfield gives the earth-fixed position and velocity of the track; neither is zero",
    "angles are real numbers: the corner angles of a rectangle are exact",
    "split_polygon and project_polygon_to_elevation are used through P20's contracts; footprints collapsed to a line (looking past the Earth) are outside",
    "trigonometric addition theorem at two angles; Cauchy-Schwarz is proved",
]
A, B = 6378137.0, 6356752.314245


# ------------------------------------------------------------------ oracle
def geodetic(p):
    """longitude, latitude (degrees), height of a point, by iteration."""
    x, y, z = p
    e2 = 1 - (B / A) ** 2
    r = math.hypot(x, y)
    lat = math.atan2(z, r * (1 - e2))
    for _ in range(50):
        N = A / math.sqrt(1 - e2 * math.sin(lat) ** 2)
        new = math.atan2(z + e2 * N * math.sin(lat), r)
        if abs(new - lat) < 1e-15:
            break
        lat = new
    N = A / math.sqrt(1 - e2 * math.sin(lat) ** 2)
    h = r * math.cos(lat) + z * math.sin(lat) - A * math.sqrt(1 - e2 * math.sin(lat) ** 2)
    return math.degrees(math.atan2(y, x)), math.degrees(lat), h


def xyz(lon, lat, h):
    e2 = 1 - (B / A) ** 2
    la, lo = math.radians(lat), math.radians(lon)
    N = A / math.sqrt(1 - e2 * math.sin(la) ** 2)
    return np.array([(N + h) * math.cos(la) * math.cos(lo), (N + h) * math.cos(la) * math.sin(lo), (N * (1 - e2) + h) * math.sin(la)])


def axes(pos, vel):
    v = vel / np.linalg.norm(vel)
    b = -pos / np.linalg.norm(pos)
    return b, v, np.cross(v, b)


def offsets(cross, along, rect, angle):
    """(cross, along) tangent-plane offset of the edge at the angle."""
    tc, ta = math.tan(math.radians(cross / 2)), math.tan(math.radians(along / 2))
    c, s = math.cos(angle), math.sin(angle)
    if not rect:
        return tc * c, ta * s
    k = min(tc / abs(c) if abs(c) > 1e-300 else math.inf, ta / abs(s) if abs(s) > 1e-300 else math.inf)
    return k * c, k * s


def meet(pos, ray, elev):
    """(point, margin): first meeting of the ray with the ellipsoid, or the limb point on the ray's side of the nadir."""
    S = np.array([A + elev, A + elev, B + elev])
    p, d = pos / S, ray / S
    d = d / np.linalg.norm(d)
    pd = p @ d
    disc = pd * pd - (p @ p - 1)
    if disc >= 0 and pd < 0:
        return (p + d * (-pd - math.sqrt(disc))) * S, disc
    # limb: in the plane of position and ray (scaled space: a sphere), the tangent point nearest the ray
    u = p / np.linalg.norm(p)
    e = d - (d @ u) * u
    e = e / np.linalg.norm(e)
    r = np.linalg.norm(p)
    return (u / r + e * math.sqrt(1 - 1 / r**2)) * S, disc


def expect_point(got, want, margin, what, key):
    d = float(np.linalg.norm(np.asarray(got) - want))
    # near a grazing ray the meeting point is ill-conditioned
    tol = 1.0 if abs(margin) > 1e-4 else 50.0 if abs(margin) > 1e-6 else 20000.0
    expect(d < tol, f"{what}: {d:.1f} m from the expected point {geodetic(want)}", key)


def track_of(i):
    o = orb.make(i["orbit"])
    l1, l2 = o.to_tle().tle[:2]
    ts = constants.timescale
    t0 = o.to_tle().get_epoch()
    ds = [t0 + timedelta(seconds=x) for x in i["offsets"]]
    sat = EarthSatellite(l1, l2, ts=ts)
    if i["shape"] == "single":
        ds = ds[:1]
    tr = sat.at(ts.from_datetime(ds[0]) if i["shape"] == "single" else ts.from_datetimes(ds))
    if not np.all(np.isfinite(tr.position.m)):
        raise Skip()
    p, v = tr.frame_xyz_and_velocity(itrs)
    P, Vv = np.reshape(p.m, (3, -1)).T, np.reshape(v.m_per_s, (3, -1)).T
    if np.any(np.linalg.norm(P, axis=1) < 6.5e6):
        raise Skip()  # below the atmosphere
    return sat, tr, ds, P, Vv


def ray_of(pos, vel, i, c, a):
    b, v, n = axes(pos, vel)
    return b + v * (math.tan(math.radians(i["pitch"])) + a) + n * (math.tan(math.radians(i["roll"])) + c)


def spice(f):
    """CSPICE now and then rejects a numerically round limb ellipse: a fault of the library, not judged here."""
    def g(i):
        try:
            return f(i)
        except SpiceyError as e:
            if "INVALIDELLIPSE" in str(e) + type(e).__name__:
                raise Skip()
            raise
    return g


def places(g, n):
    """n (lon, lat, height) of a geographic position."""
    f = lambda x: np.reshape(x, (-1,))
    L = list(zip(f(g.longitude.degrees), f(g.latitude.degrees), f(g.elevation.m)))
    expect(len(L) == n, f"{len(L)} positions for {n} times", "count")
    return L


def instrument(i):
    return PointedInstrument(cross_track_field_of_view=i["cross"], along_track_field_of_view=i["along"], roll_angle=i["roll"], pitch_angle=i["pitch"], is_rectangular=i["rect"],
                             cross_track_pixels=i["cp"], along_track_pixels=i["ap"], cross_track_oversampling=i["co"], along_track_oversampling=i["ao"])


@spice
def check_ray(i):
    sat, tr, ds, P, V = track_of(i)
    for ang in i["angles"]:
        g = utils.compute_projected_ray_position(tr, i["cross"], i["along"], i["roll"], i["pitch"], i["rect"], ang, i["elev"])
        for k, (lo, la, h) in enumerate(places(g, len(ds))):
            c, a = offsets(i["cross"], i["along"], i["rect"], ang)
            want, m = meet(P[k], ray_of(P[k], V[k], i, c, a), i["elev"])
            expect_point(xyz(lo, la, h), want, m, f"ray at {ang:.4f} rad of {i['cross']}x{i['along']} deg {'rectangle' if i['rect'] else 'ellipse'}, roll {i['roll']} pitch {i['pitch']}, elevation {i['elev']}, time {k} of {len(ds)}", "ray")
            expect(-180 <= lo <= 180 and -90 <= la <= 90, "range", "range")


@spice
def check_centre(i):
    sat, tr, ds, P, V = track_of(i)
    inst = Instrument(field_of_regard=i["cross"]) if i["nadir"] else instrument(i)
    j = dict(i, roll=0, pitch=0) if i["nadir"] else i
    for k, (lo, la, h) in enumerate(places(inst.compute_footprint_center(tr, elevation=i["elev"]), len(ds))):
        want, m = meet(P[k], ray_of(P[k], V[k], j, 0, 0), i["elev"])
        expect_point(xyz(lo, la, h), want, m, f"centre of the footprint, roll {j['roll']} pitch {j['pitch']}, time {k}", "centre")


@spice
def check_pixels(i):
    sat, tr, ds, P, V = track_of(i)
    inst = instrument(i)
    out = inst.compute_footprint_pixel_array(tr, elevation=i["elev"])
    out = out if isinstance(out, list) else [out]
    expect(len(out) == len(ds), f"{len(out)} pixel arrays for {len(ds)} times", "count")
    for k in range(len(ds)):
        pts = [g for g in out[k].geoms]
        expect(len(pts) == i["cp"] * i["ap"], f"{len(pts)} pixels", "count")
        q = 0
        for x in range(i["cp"]):
            for y in range(i["ap"]):
                # degrees off the boresight, evenly spaced
                dx = (x - (i["cp"] - 1) / 2) * i["cross"] / i["cp"] * (1 - i["co"])
                dy = ((i["ap"] - 1) / 2 - y) * i["along"] / i["ap"] * (1 - i["ao"])
                cone = math.hypot(dx, dy)
                if cone > 88:
                    q += 1
                    continue
                t = math.tan(math.radians(cone))
                c, a = (0, 0) if cone == 0 else (t * dx / cone, t * dy / cone)
                want, m = meet(P[k], ray_of(P[k], V[k], i, c, a), i["elev"])
                g = pts[q]
                expect_point(xyz(g.x, g.y, g.z), want, m, f"pixel {x},{y} of {i['cp']}x{i['ap']} over {i['cross']}x{i['along']} deg, time {k}", "pixel")
                if len(ds) == 1 and q < 2:
                    h = inst.compute_projected_pixel_position(tr, x, y, i["elev"])
                    expect(abs(float(np.squeeze(h.longitude.degrees)) - g.x) < 1e-9, "pixel position", "pixel")
                q += 1


def unwrap(ring):
    out = [ring[0]]
    for a, b in zip(ring, ring[1:]):
        d = b[0] - a[0]
        out.append((out[-1][0] + (d - 360 if d > 180 else d + 360 if d < -180 else d), b[1]))
    return out


def vertices(geom):
    """all vertices of a (multi)polygon."""
    polys = geom.geoms if hasattr(geom, "geoms") else [geom]
    return [c for p in polys for r in [p.exterior, *p.interiors] for c in r.coords]


@spice
def check_footprint(i):
    sat, tr, ds, P, V = track_of(i)
    if i["nadir"]:
        inst, j = Instrument(field_of_regard=i["cross"]), dict(i, roll=0, pitch=0, along=i["cross"], rect=False)
    else:
        inst, j = instrument(i), i
    N = i["points"]
    kw = {} if N is None else dict(number_points=N)
    N = N or (config.rc.footprint_points_rectangular_side if j["rect"] else config.rc.footprint_points_elliptical)
    if j["rect"]:
        th = math.atan2(math.tan(math.radians(j["along"] / 2)), math.tan(math.radians(j["cross"] / 2)))
        q = [-th, th, math.pi - th, math.pi + th, 2 * math.pi - th]
        angles = [q[s] + (q[s + 1] - q[s]) * m / N for s in range(4) for m in range(N)]
    else:
        angles = [2 * math.pi * m / (N - 1) for m in range(N)]
    edge = []
    for k in range(len(ds)):
        want, worst = [], 1.0
        for ang in angles:
            p, m = meet(P[k], ray_of(P[k], V[k], j, *offsets(j["cross"], j["along"], j["rect"], ang)), i["elev"])
            worst = min(worst, abs(m))
            want.append(geodetic(p))
        ring = unwrap([w[:2] for w in want])
        plain = geo.Polygon(ring).is_valid and max(w[0] for w in want) - min(w[0] for w in want) < 179
        edge.append((want, worst, plain))
        u = np.array(ring)
        if geo.Polygon(ring).buffer(0).area < 1e-9 * max(1e-9, np.ptp(u[:, 0]) ** 2 + np.ptp(u[:, 1]) ** 2):
            raise Skip()  # looks past the Earth: the edge collapses to a line
    out = inst.compute_footprint(tr, elevation=i["elev"], **kw)
    single = len(ds) == 1
    expect(isinstance(out, list) != single, f"{type(out).__name__} for {len(ds)} times", "shape")
    out = [out] if single else out
    expect(len(out) == len(ds), f"{len(out)} footprints for {len(ds)} times", "count")
    for k in range(len(ds)):
        want, worst, plain = edge[k]
        what = f"footprint {j['cross']}x{j['along']} deg {'rectangle' if j['rect'] else 'ellipse'}, roll {j['roll']} pitch {j['pitch']}, {N} points, time {k} of {len(ds)}"
        have = vertices(out[k])
        expect(all(abs(c[2] - i["elev"]) < 1e-6 for c in have), f"{what}: heights", "height")
        expect(all(-180 <= c[0] <= 180 and -90 <= c[1] <= 90 for c in have), f"{what}: out of range", "range")
        if worst < 1e-6:
            continue
        H = np.array([xyz(c[0], c[1], i["elev"]) for c in have])
        tol = 5.0 if worst > 1e-4 else 100.0
        ok = 0
        for lo, la, _ in want:
            d = np.linalg.norm(H - xyz(lo, la, i["elev"]), axis=1)
            # splitting may add vertices but never moves one
            expect(d.min() < tol, f"{what}: no vertex within {d.min():.0f} m of the edge point ({lo:.4f}, {la:.4f})", "vertex")
        if plain and max(abs(w[1]) for w in want) < 89:
            W = np.array([xyz(lo, la, i["elev"]) for lo, la, _ in want])
            for h_ in H:
                expect(np.linalg.norm(W - h_, axis=1).min() < tol, f"{what}: a vertex at no edge point", "vertex")


@spice
def check_limb(i):
    sat, tr, ds, P, V = track_of(i)
    out = utils.compute_limb(tr, i["points"] or 16, i["elev"]) if i["points"] else utils.compute_limb(tr, elevation=i["elev"])
    out = out if isinstance(out, list) else [out]
    expect(len(out) == len(ds), f"{len(out)} limbs", "count")
    S = np.array([A + i["elev"], A + i["elev"], B + i["elev"]])
    for k, g in enumerate(out):
        vs = vertices(g)
        p = P[k] / S
        cut = [abs(abs(c[0]) - 180) < 1e-9 or abs(c[0]) < 1e-9 or abs(abs(c[1]) - 90) < 1e-9 for c in vs]
        expect(all(abs(c[2] - i["elev"]) < 1e-6 for c in vs), "limb heights", "height")
        for c, skip in zip(vs, cut):
            if skip:
                continue  # added by splitting
            q = xyz(c[0], c[1], 0) if i["elev"] == 0 else xyz(c[0], c[1], i["elev"])
            q = q / S
            q = q / np.linalg.norm(q)
            # the sight line touches the ellipsoid: p.q = 1 in scaled coordinates
            expect(abs(p @ q - 1) < 2e-3, f"limb vertex {c} of a satellite at {P[k]}: sight line does not touch the Earth ({p @ q})", "limb")


def concrete(C):
    def base(r):
        d = orb.gen_orbit(r, ("circular", "circular", "sso", "keplerian", "molniya"))
        d["epoch"]["days"] = 7000 + r.randrange(1500)
        if d["kind"] == "circular":
            d["altitude"] = r.choice([300e3, 500e3, 800e3, 2000e3, 35786e3])
        sh = r.choice(["single", "single", "one", "several", "several"])
        n = 1 if sh in ("single", "one") else r.choice([2, 3, 5])
        wide = r.random()
        fov = lambda: r.uniform(0.1, 20) if wide < 0.4 else r.uniform(1, 120) if wide < 0.9 else r.choice([150.0, 179.0, 170.0])
        c = fov()
        return dict(orbit=d, shape=sh, offsets=[r.randrange(0, 40000) for _ in range(n)] if r.random() < 0.5 else [r.randrange(6000) + 30 * k for k in range(n)],
                    cross=c, along=c if r.random() < 0.2 else fov(), rect=r.random() < 0.5, roll=r.choice([0, 0, r.uniform(-30, 30), r.uniform(-75, 75)]), pitch=r.choice([0, 0, r.uniform(-30, 30), r.uniform(-60, 60)]),
                    elev=r.choice([0, 0, 1000.0, 9000.0, -300.0]), cp=r.choice([1, 2, 3, 5]), ap=r.choice([1, 2, 4]), co=r.choice([0, 0, 0.25]), ao=r.choice([0, 0, 0.5]),
                    points=r.choice([None, 5, 9, 20]), nadir=r.random() < 0.3)

    def gray(r):
        i = base(r)
        th = math.atan2(math.tan(math.radians(i["along"] / 2)), math.tan(math.radians(i["cross"] / 2)))
        lo = -th if i["rect"] else -math.pi
        i["angles"] = [r.uniform(lo, 2 * math.pi - (th if i["rect"] else 0)) for _ in range(4)] + [r.choice([0, math.pi / 2, math.pi, 3 * math.pi / 2, th * (1 - 1e-9), th * (1 + 1e-9), math.pi - th * (1 - 1e-9), math.pi + th * (1 + 1e-9)])]
        return i
    R = "1..5 times of 5 kinds of orbit, fields of view to 179 deg, roll and pitch, elevations; rays that hit and rays that miss the Earth"
    C.cases("edge rays", gray, check_ray, 250, R, share=0.3)
    C.cases("centre", base, check_centre, 80, R, share=0.2)
    C.cases("pixels", base, check_pixels, 120, R, share=0.4)
    C.cases("footprint", base, check_footprint, 150, R, share=0.6)
    C.cases("limb", base, check_limb, 80, R, share=0.6)


# ------------------------------------------------------------------ contracts
I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
F3 = lambda nm: [z3.Function(nm + c, I_, R_) for c in "xyz"]
POS, VEL = F3("position_"), F3("velocity_")
RAY = F3("ray_")
CEN, MAJ, MIN = F3("limb_centre_"), F3("limb_major_"), F3("limb_minor_")
FREE = [z3.Function("geodetic_" + c, R_, R_, R_, R_) for c in ("lon", "lat", "h")]
AT = [z3.Function("edge_" + c, R_, R_, I_, R_) for c in ("lat", "lon", "h")]  # kind of ray, angle, time
PIX = [z3.Function("pixel_" + c, I_, I_, I_, R_) for c in ("lat", "lon", "h")]
SURF, ON1, ON2 = F3("meeting_"), F3("limb_a_"), F3("limb_b_")
GEOS = {k: [z3.Function(f"geodetic_{k}_{c}", I_, R_) for c in ("lon", "lat", "h")] for k in ("surf", "on1", "on2")}
HIT = z3.Function("ray_meets_earth", I_, B_)
CUR = {}
arr = lambda fs, j: column(Mat3(None, lambda c, k: Num(fs[c](k))), j)


class Obj(Sym):
    def __init__(self, **k):
        self.__dict__.update(k)

    def _subst(self, p):
        return Obj(**{k: subst(x, p) for k, x in self.__dict__.items()})

    def _equal(self, o):
        return z3.And(*[equal(x, o.__dict__.get(k)) for k, x in self.__dict__.items()]) if isinstance(o, Obj) and o.__dict__.keys() == self.__dict__.keys() else z3.BoolVal(False)

    def _ite(self, c, o, rev):
        if not isinstance(o, Obj) or o.__dict__.keys() != self.__dict__.keys():
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        return Obj(**{k: core.ite(c, x, b.__dict__[k]) for k, x in a.__dict__.items()})


class Track(Sym):
    """earth-fixed positions and velocities of one satellite at one time or at any number of times."""

    def __init__(self, n):
        self.n = n
        t = z3.Function("time_of", I_, R_)
        self.t = SkyTime(STime(t(z3.IntVal(0))) if n is None else Seq(n, lambda j: STime(t(j)), True))

    def frame_xyz_and_velocity(self, frame):
        if frame is not itrs:
            raise Unsupported("another frame")
        ctx.trust("skyfield: earth-fixed position and velocity of the track")
        mk = lambda fs: arr(fs, z3.IntVal(0)) if self.n is None else Mat3(self.n, lambda c, j: Num(fs[c](j)))
        return Obj(m=mk(POS)), Obj(m_per_s=mk(VEL))

    def _subst(self, p):
        return self

    def _equal(self, o):
        return z3.BoolVal(self is o)


def index_of(a, fs, what):
    """the index j when a is the vector fs(j)."""
    e = [x.e if isinstance(x, Num) else None for x in list(a)]
    if all(x is not None and z3.is_app(x) and x.num_args() == 1 and x.decl().eq(f) for x, f in zip(e, fs)) and len({x.arg(0).get_id() for x in e}) == 1:
        return e[0].arg(0)
    raise Unsupported(what)


def radii(a, b, c):
    h = CUR["elev"]
    core.oblig("the ellipsoid is WGS 84 raised by the elevation", z3.And(equal(a, K_A + h), equal(b, K_A + h), equal(c, K_B + h)))


def by_case(u):
    """the vector with each condition it depends on decided (one path per feasible case)."""
    while True:
        c = next((c for x in u if isinstance(x, Num) for c in [first_cond(x.e)] if c is not None), None)
        if c is None:
            return
        t = z3.BoolVal(core.decide(c))
        for k in range(len(u)):
            if isinstance(u[k], Num):
                u[k] = Num(core.norm(z3.simplify(z3.substitute(u[k].e, (c, t)), blast_select_store=False)))


def first_cond(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return x.arg(0)
        st.extend(x.children())
    return None


def m_surfpt(interp, args, kw):
    if not is_sym(args):
        return NotImplemented
    p, u, a, b, c = args
    by_case(u)
    j = index_of(p, POS, "ray from another place")
    radii(a, b, c)
    core.oblig("the ray is the documented edge of the field of view", z3.And(*[equal(x, y) for x, y in zip(u, CUR["ray"](j))]))
    # from here on the ray is known by name only (equals for equals)
    for c in range(3):
        u[c] = Num(RAY[c](j))
    ctx.trust("spiceypy.surfpt: first meeting of a ray with an ellipsoid, NotFoundError when there is none")
    if core.decide(HIT(j)):
        return arr(SURF, j)
    raise SymRaise(NotFoundError(message="no intersection", found=False))


def m_recgeo(interp, args, kw):
    if not is_sym(args):
        return NotImplemented
    p, re, f = args
    if "free" in CUR:
        core.oblig("geodetic coordinates on WGS 84", z3.And(equal(re, K_A), equal(f, K_F)))
        ctx.trust("spiceypy.recgeo: geodetic longitude, latitude (radians) and height of a point")
        return np.array([Num(g(*[zr(x) for x in p])) for g in FREE] + [None], dtype=object)[:3]
    core.oblig("geodetic coordinates on WGS 84", z3.And(equal(re, K_A), equal(f, K_F)))
    ctx.trust("spiceypy.recgeo: geodetic longitude, latitude (radians) and height of a point")
    for k, fs in (("surf", SURF), ("on1", ON1), ("on2", ON2)):
        try:
            j = index_of(p, fs, "")
        except Unsupported:
            continue
        return arr(GEOS[k], j)
    e = [x.e if isinstance(x, Num) else None for x in p]
    if all(x is not None and z3.is_app_of(x, z3.Z3_OP_ITE) for x in e) and len({x.arg(0).get_id() for x in e}) == 1:
        a, b = (m_recgeo(interp, [np.array([Num(x.arg(k)) for x in e] + [None], dtype=object)[:3], re, f], kw) for k in (1, 2))
        return np.array([core.ite(e[0].arg(0), x, y) for x, y in zip(a, b)] + [None], dtype=object)[:3]
    raise Unsupported("geodetic coordinates of another point")


class Limb(Sym):
    def __init__(self, j):
        self.j = j

    center = property(lambda s: arr(CEN, s.j))
    semi_major = property(lambda s: arr(MAJ, s.j))
    semi_minor = property(lambda s: arr(MIN, s.j))

    def _subst(self, p):
        return Limb(z3.substitute(self.j, *p))


class Plane(Limb):
    pass


def m_edlimb(interp, args, kw):
    if not is_sym(args):
        return NotImplemented
    radii(*args[:3])
    ctx.trust("spiceypy.edlimb: limb of an ellipsoid seen from a point")
    return Limb(index_of(args[3], POS, "limb from another place"))


def m_plane(interp, args, kw):
    if not is_sym(args):
        return NotImplemented
    n, p = args
    j = index_of(p, POS, "plane through another point")
    P, r = arr(POS, j), arr(RAY, j)
    want = [P[(c + 1) % 3] * r[(c + 2) % 3] - P[(c + 2) % 3] * r[(c + 1) % 3] for c in range(3)]
    core.oblig("the plane holds the ray and the nadir", z3.Or(z3.And(*[equal(x, y) for x, y in zip(n, want)]), z3.And(*[equal(x, -y) for x, y in zip(n, want)])))
    return Plane(j)


def m_inelpl(interp, args, kw):
    if not is_sym(args):
        return NotImplemented
    l, p = args
    if not isinstance(l, Limb) or not isinstance(p, Plane):
        raise Unsupported("intersection of other shapes")
    core.oblig("limb and plane of the same time", l.j == p.j)
    for fs in (ON1, ON2):
        c = zb(mkcos(arr(RAY, l.j), arr(fs, l.j)) <= 1), zb(mkcos(arr(RAY, l.j), arr(fs, l.j)) >= -1)
        core.assume(z3.And(*c))  # Cauchy-Schwarz: see the theorem
    ctx.trust("spiceypy.nvp2pl, inelpl: the two points where a plane meets the limb")
    return (2, arr(ON1, l.j), arr(ON2, l.j))


def mkcos(a, b):
    dot = lambda a, b: a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
    ln = lambda a: M.sqrt(dot(a, a))
    return dot(a, b) / ln(a) / ln(b)


class Place(Sym):
    """geographic position(s): degrees, metres."""

    def __init__(self, lat, lon, h):
        self.latitude, self.longitude, self.elevation = Obj(degrees=lat), Obj(degrees=lon), Obj(m=h)

    def _subst(self, p):
        return Place(*(subst(x, p) for x in self.parts()))

    def parts(self):
        return self.latitude.degrees, self.longitude.degrees, self.elevation.m

    def _equal(self, o):
        return z3.And(*[equal(x, y) for x, y in zip(self.parts(), o.parts())]) if isinstance(o, Place) else z3.BoolVal(False)


class Ring(Sym):
    """a shapely polygon with these vertices, after split_polygon / project_polygon_to_elevation."""

    def __init__(self, pts, split=False, elev=None):
        self.pts, self.split, self.elev = pts, split, elev

    def _subst(self, p):
        return type(self)(subst(self.pts, p), self.split, subst(self.elev, p))


class Dots(Ring):
    pass


K_A, K_B, K_F = (core.rv(core.frac_of_float(x)) for x in (6378137.0, 6356752.314245179, 1 / 298.257223563))
K_A, K_B, K_F = Num(K_A), Num(K_B), Num(K_F)
U = "tatc.utils."


def scalar(x):
    """a coordinate: a number or an array of one number."""
    if isinstance(x, Seq):
        if not core.decide(x.n == 1):
            raise SymRaise(TypeError("array as a coordinate"))
        return x.get(z3.IntVal(0))
    return x


def install():
    from vf import mat
    mat.install()
    MODELS[utils.surfpt], MODELS[utils.recgeo], MODELS[utils.edlimb] = m_surfpt, m_recgeo, m_edlimb
    MODELS[utils.nvp2pl], MODELS[utils.inelpl] = m_plane, m_inelpl
    METHOD_MODELS[(type(wgs84), "latlon")] = lambda interp, s, a, k: Place(a[0], a[1], a[2] if len(a) > 2 else k.get("elevation_m", 0)) if is_sym([a, k]) else NotImplemented
    MODELS[geo.Polygon] = lambda interp, a, k: Ring(a[0]) if is_sym(a[0]) else NotImplemented
    MODELS[geo.MultiPoint] = lambda interp, a, k: Dots(a[0]) if is_sym(a[0]) else NotImplemented
    MODELS[geo.Point] = lambda interp, a, k: tuple(map(scalar, a if len(a) > 1 else interp.as_list(a[0]))) if is_sym(a) else NotImplemented


def ray_spec(j, pitch, roll, x, y):
    """nadir + forward * (tan pitch + y) + (forward x nadir) * (tan roll + x)."""
    P, Vv = arr(POS, j), arr(VEL, j)
    ln = lambda a: M.sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2])
    f = [c / ln(Vv) for c in Vv]
    b = [-c / ln(P) for c in P]
    n = [f[(c + 1) % 3] * b[(c + 2) % 3] - f[(c + 2) % 3] * b[(c + 1) % 3] for c in range(3)]
    tp, tr = M.tan(M.rad(pitch)), M.tan(M.rad(roll))
    return [b[c] + f[c] * tp + n[c] * tr + f[c] * y + n[c] * x for c in range(3)]


def geodetic_of(j, c):
    """component of the expected geodetic position of the ray at time j (radians, metres)."""
    near = M.acos(mkcos(arr(RAY, j), arr(ON1, j))) <= M.acos(mkcos(arr(RAY, j), arr(ON2, j)))
    return core.ite(HIT(j), Num(GEOS["surf"][c](j)), core.ite(zb(near), Num(GEOS["on1"][c](j)), Num(GEOS["on2"][c](j))))


def deductive(V):
    install()

    def scene(v, several):
        CUR.clear()
        n = v.int("times", ge=1).e if several else None
        elev = v.real("elevation", gt=-1000, lt=100000)
        CUR.update(elev=elev)
        trk = Track(n)
        i = seq.gvar("i")
        for fs in (POS, VEL):
            v.assume(z3.ForAll([i], fs[0](i) * fs[0](i) + fs[1](i) * fs[1](i) + fs[2](i) * fs[2](i) > 0, patterns=[fs[0](i)]))
            v.assume(fs[0](0) * fs[0](0) + fs[1](0) * fs[1](0) + fs[2](0) * fs[2](0) > 0)
        return trk, n, elev

    def angles(v, **bounds):
        roll, pitch = v.real("roll", gt=-90, lt=90), v.real("pitch", gt=-90, lt=90)
        cross, along = v.real("cross", ge=0, lt=180, **bounds), v.real("along", ge=0, lt=180, **bounds)
        return cross, along, roll, pitch

    def outcome(v, r, n):
        if not isinstance(r, Place):
            raise Unsupported("not a geographic position")
        lat, lon, h = r.parts()
        if n is None:
            j, at = z3.IntVal(0), lambda x: x
        else:
            j = z3.Int("j")
            v.assume(z3.And(j >= 0, j < n))
            if not all(isinstance(x, Seq) for x in (lat, lon, h)):
                raise Unsupported("positions of another shape")
            v.ensure("one position per time", z3.And(lat.n == n, lon.n == n, h.n == n))
            at = lambda x: x.get(j)
        v.ensure("longitude of the meeting point, else of the limb point nearer the ray", equal(at(lon), M.deg(geodetic_of(j, 0))))
        v.ensure("latitude of the meeting point, else of the limb point nearer the ray", equal(at(lat), M.deg(geodetic_of(j, 1))))
        v.ensure("height of the meeting point, else of the limb point nearer the ray", equal(at(h), geodetic_of(j, 2)))

    def cauchy(v):
        a, b = z3.Reals("ax ay az"), z3.Reals("bx by bz")
        dot = lambda u, w: u[0] * w[0] + u[1] * w[1] + u[2] * w[2]
        cr = [a[(c + 1) % 3] * b[(c + 2) % 3] - a[(c + 2) % 3] * b[(c + 1) % 3] for c in range(3)]
        v.theorem("squared cosine (Lagrange)", [], dot(a, a) * dot(b, b) - dot(a, b) * dot(a, b) == dot(cr, cr))
        d, A_, B2, x, y, k = z3.Reals("d A B x y k")
        v.theorem("a cosine lies within [-1, 1] (Cauchy-Schwarz)", [], z3.Implies(z3.And(A_ * B2 - d * d == k, k >= 0, x > 0, y > 0, x * x == A_, y * y == B2), z3.And(d <= x * y, d >= -x * y)))
    V.vc("cosine of an angle between vectors", cauchy, sample_sat=False)

    for several in (False, True):
        def ellipse(v, several=several):
            trk, n, elev = scene(v, several)
            cross, along, roll, pitch = angles(v)
            ang = v.real("angle")
            x, y = M.cos(ang) * M.tan(M.rad(cross) / 2), M.sin(ang) * M.tan(M.rad(along) / 2)
            CUR["ray"] = lambda j: ray_spec(j, pitch, roll, x, y)
            outcome(v, v.call(utils.compute_projected_ray_position, trk, cross, along, roll, pitch, False, ang, elev), n)
        V.vc(f"compute_projected_ray_position, elliptical, {'several times' if several else 'one time'}", ellipse)
        sides = ["right", "fore", "left", "aft", "corner right-fore", "corner fore-left", "corner left-aft", "corner aft-right"]
        for side in sides:
            def rect(v, several=several, side=side):
                trk, n, elev = scene(v, several)
                cross, along, roll, pitch = angles(v, gt=0)
                tc, ta = M.tan(M.rad(cross) / 2), M.tan(M.rad(along) / 2)
                v.lemma("half widths are positive", z3.And(zb(tc > 0), zb(ta > 0)))
                th = M.atan(ta / tc)
                pi = Num(core.PI)
                if side.startswith("corner"):
                    ang, x, y = {"right-fore": (th, tc, ta), "fore-left": (pi - th, -tc, ta), "left-aft": (pi + th, -tc, -ta), "aft-right": (-th, tc, -ta)}[side.split()[1]]
                else:
                    # angle = mid of the side + w
                    w = v.real("w")
                    t = M.sin(w) / M.cos(w)
                    q, lim, x, y = {"right": (0, th, tc, tc * t), "fore": (1, pi / 2 - th, -(ta * t), ta), "left": (2, th, -tc, -(tc * t)), "aft": (3, pi / 2 - th, ta * t, -ta)}[side]
                    v.assume(z3.And(zb(w > -lim), zb(w < lim)))
                    ang = pi * q / 2 + w
                CUR["ray"] = lambda j: ray_spec(j, pitch, roll, x, y)
                outcome(v, v.call(utils.compute_projected_ray_position, trk, cross, along, roll, pitch, True, ang, elev), n)
            V.vc(f"compute_projected_ray_position, rectangular, {side}, {'several times' if several else 'one time'}", rect)

    # -- the rectangle: the offsets above are where its boundary meets the direction of the angle
    for side in ("right", "fore"):
        def corner(v, side=side):
            tc, ta, w = v.real("tc", gt=0), v.real("ta", gt=0), v.real("w")
            th, pi = M.atan(ta / tc), Num(core.PI)
            lim = th if side == "right" else pi / 2 - th
            v.assume(z3.And(zb(w > -lim), zb(w < lim)))
            p, q = v.real("p"), v.real("q")
            sw, cw, st, ct = M.sin(w), M.cos(w), M.sin(th), M.cos(th)
            v.assume(z3.And(equal(p, th - w), equal(q, th + w)))
            # addition theorems at these angles
            if side == "right":
                add = [equal(M.sin(p), st * cw - ct * sw), equal(M.sin(q), st * cw + ct * sw)]
            else:
                add = [equal(M.cos(p), ct * cw + st * sw), equal(M.cos(q), ct * cw - st * sw)]
            for a in add:
                v.assume(a)
            v.ensure("the ray is in front", cw > 0)
            y = (tc if side == "right" else ta) * sw / cw
            lim = ta if side == "right" else tc
            v.lemma("cosine", zb(ct > 0))
            v.lemma("tangent", equal(st * tc, ta * ct))
            f = M.sin if side == "right" else M.cos
            v.lemma("first addition", zb(f(p) > 0))
            v.lemma("second addition", zb(f(q) > 0))
            a, b = (lim * cw - tc * sw, lim * cw + tc * sw) if side == "right" else (lim * cw + ta * sw, lim * cw - ta * sw)
            v.lemma("first product", equal(a * ct, tc * f(p)))
            v.lemma("second product", equal(b * ct, tc * f(q)))
            v.lemma("first positive", zb(a > 0))
            v.lemma("second positive", zb(b > 0))
            v.lemma("products", z3.And(zb(cw > 0), zb(lim * cw > (tc if side == "right" else ta) * sw), zb(-lim * cw < (tc if side == "right" else ta) * sw)))
            v.ensure("the offset lies on the side of the rectangle", z3.And(zb(y < lim), zb(y > -lim)))
        V.vc(f"rectangle: the offset of an angle of the {side} side lies on the boundary", corner)

    # -- callers are checked against this contract of compute_projected_ray_position
    sig = inspect.signature(utils.compute_projected_ray_position)

    def ray_contract(interp, args, kw):
        b = sig.bind(*args, **kw)
        b.apply_defaults()
        a = b.arguments
        return CUR["ray at"](**a)

    def edge(v, trk, n, want):
        """contract in use: the arguments must be those of want; the result is the edge position of the angle."""
        def at(angle, **a):
            for k, x in want.items():
                core.oblig(f"passes on {k}", equal(a[k], x) if k != "orbit_track" else z3.BoolVal(a[k] is x))
            g = lambda f: Num(f(z3.RealVal(0), core.norm(zr(angle)), z3.IntVal(0))) if n is None else Seq(n, lambda j: Num(f(z3.RealVal(0), core.norm(zr(angle)), j)), True)
            return Place(*[g(f) for f in AT])
        CUR["ray at"] = at

    def rings(v, r, n, spec, what):
        """r is one split and projected polygon per time, with the vertices spec(k): (count, (j -> (x, y)))."""
        if n is not None and not v.check(n == 1):
            if not isinstance(r, (Seq, list)):
                v.ensure(f"{what}: one shape per time", z3.BoolVal(False))
                return
            r = r if isinstance(r, Seq) else seq.of_list(r)
            k = z3.Int("k")
            v.assume(z3.And(k >= 0, k < n))
            v.ensure(f"{what}: one shape per time", r.n == n)
            r = r.get(k)
        else:
            k = z3.IntVal(0)
            if isinstance(r, Seq):
                v.ensure(f"{what}: a single shape for one time", z3.BoolVal(False))
                return
        if not isinstance(r, Ring):
            raise Unsupported("another shape")
        if not isinstance(r, Dots):
            v.ensure(f"{what}: split into valid longitudes", z3.BoolVal(r.split))
            v.ensure(f"{what}: raised to the elevation", equal(r.elev, CUR["elev"]))
        pts = r.pts if isinstance(r.pts, Seq) else seq.of_list(list(r.pts))
        for label, count, ix, dom, want in spec(k):
            v.ensure(f"{what}: number of vertices", pts.n == count)
            m = len(ctx.pc)
            v.assume(dom)
            g = pts.get(ix)
            g = list(g) if isinstance(g, (tuple, list, np.ndarray)) else None
            v.ensure(f"{what}: {label}", z3.And(*[equal(x, y) for x, y in zip(g, want)]) if g is not None and len(g) == len(want) else z3.BoolVal(False))
            del ctx.pc[m:]

    def with_contracts(f):
        saved = dict(CONTRACTS)
        CONTRACTS[U + "compute_projected_ray_position"] = ray_contract
        CONTRACTS[U + "split_polygon"] = lambda interp, a, k: Ring(a[0].pts, True, a[0].elev)
        CONTRACTS[U + "project_polygon_to_elevation"] = lambda interp, a, k: Ring(a[0].pts, a[0].split, a[1] if len(a) > 1 else k["elevation"])
        rc = config.rc
        try:
            return f()
        finally:
            config.rc = rc
            CONTRACTS.clear()
            CONTRACTS.update(saved)

    def sym_track(v, several):
        trk, n, elev = scene(v, several)
        return trk, n, elev

    for several in (False, True):
        for given in (True, False):
            for shape in ("elliptical", "rectangular"):
                def body(v, several=several, given=given, shape=shape):
                    trk, n, elev = scene(v, several)
                    cross, along, roll, pitch = angles(v, gt=0)
                    N = v.int("points", ge=3)
                    box = shape == "rectangular"
                    want = dict(orbit_track=trk, cross_track_field_of_view=cross, along_track_field_of_view=along, roll_angle=roll, pitch_angle=pitch, is_rectangular=box, elevation=elev)
                    edge(v, trk, n, want)

                    def run():
                        if not given:
                            other = Num(z3.Int("other_points"))
                            config.rc = Obj(footprint_points_rectangular_side=N if box else other, footprint_points_elliptical=other if box else N)
                        return v.call(utils.compute_footprint, trk, cross, along, roll, pitch, box, N if given else None, elev)
                    r = with_contracts(run)
                    th, pi = M.atan(M.tan(M.rad(along) / 2) / M.tan(M.rad(cross) / 2)), Num(core.PI)

                    def spec(k):
                        m = z3.Int("m")
                        e = lambda ang: tuple(Num(AT[c](z3.RealVal(0), core.norm(zr(ang)), k)) for c in (1, 0))
                        fr = lambda d: Num(z3.ToReal(m)) / Num(z3.ToReal(d))
                        if not box:
                            yield "vertex at its angle around the ellipse", N.e, m, z3.And(m >= 0, m < N.e), e(pi * 2 * Num(z3.ToReal(m)) / Num(z3.ToReal(N.e - 1)))
                            return
                        for s_, (lo, hi) in enumerate(((-th, th), (th, pi - th), (pi - th, pi + th), (pi + th, pi * 2 - th))):
                            yield f"vertex at its angle along side {s_ + 1}", N.e * 4, N.e * s_ + m, z3.And(m >= 0, m < N.e), e(lo + (hi - lo) * Num(z3.ToReal(m)) / Num(z3.ToReal(N.e)))
                    rings(v, r, n, spec, "footprint")
                V.vc(f"compute_footprint, {shape}, {'any number of times' if several else 'one time'}, number of points {'given' if given else 'from the configuration'}", body)

        def limb(v, several=several):
            trk, n, elev = scene(v, several)
            N = v.int("points", ge=3)
            CUR["free"] = True
            r = with_contracts(lambda: v.call(utils.compute_limb, trk, N, elev))

            def spec(k):
                m = z3.Int("m")
                t = Num(core.PI) * 2 * Num(z3.ToReal(m)) / Num(z3.ToReal(N.e - 1))
                p = [Num(CEN[c](k)) + M.cos(t) * Num(MAJ[c](k)) + M.sin(t) * Num(MIN[c](k)) for c in range(3)]
                g = [Num(f(*[zr(x) for x in p])) for f in FREE]
                yield "vertex on the limb ellipse", N.e, m, z3.And(m >= 0, m < N.e), (M.deg(g[0]), M.deg(g[1]))
            if n is not None and isinstance(r, Seq):
                # one time in a list of times stays a list
                k = z3.Int("k0")
                v.ensure("limb: one shape per time", r.n == n)
                v.assume(z3.And(k >= 0, k < n))
                r1 = r.get(k)
                if isinstance(r1, core.Case):
                    r1 = r1.resolve()
                rings(v, r1, None, lambda _: spec(k), "limb")
            else:
                rings(v, r, n, spec, "limb")
        V.vc(f"compute_limb, {'any number of times' if several else 'one time'}", limb)

    # -- instruments
    fsig = inspect.signature(utils.compute_footprint)

    def fields(v, cls):
        f = {k: x.default for k, x in cls.model_fields.items()}
        f["field_of_regard"] = v.real("field_of_regard", gt=0, le=180)
        if cls is PointedInstrument:
            cross, along, roll, pitch = angles(v, gt=0)
            f.update(cross_track_field_of_view=cross, along_track_field_of_view=along, roll_angle=roll, pitch_angle=pitch, is_rectangular=v.bool("is_rectangular"),
                     cross_track_pixels=v.int("cross_pixels", ge=1), along_track_pixels=v.int("along_pixels", ge=1),
                     cross_track_oversampling=v.real("cross_oversampling", ge=0, lt=1), along_track_oversampling=v.real("along_oversampling", ge=0, lt=1))
        return f

    for cls in (Instrument, PointedInstrument):
        def body(v, cls=cls):
            trk, n, elev = scene(v, True)
            f = fields(v, cls)
            o = SObj(cls, f)
            N = v.int("points", ge=3)
            point = cls is PointedInstrument
            want = dict(orbit_track=trk, cross_track_field_of_view=f["cross_track_field_of_view"] if point else f["field_of_regard"], along_track_field_of_view=f["along_track_field_of_view"] if point else f["field_of_regard"],
                        roll_angle=f["roll_angle"] if point else 0, pitch_angle=f["pitch_angle"] if point else 0, is_rectangular=f["is_rectangular"] if point else False, number_points=N, elevation=elev)
            token = object()

            def foot(interp, a, k):
                b = fsig.bind(*a, **k)
                b.apply_defaults()
                for q, x in want.items():
                    core.oblig(f"footprint: passes on {q}", z3.BoolVal(b.arguments[q] is x) if q == "orbit_track" or x is None else equal(b.arguments[q], x))
                return token
            saved = dict(CONTRACTS)
            CONTRACTS[U + "compute_footprint"] = foot
            try:
                v.ensure("the footprint of the field of view", z3.BoolVal(v.call(cls.compute_footprint, o, trk, N, elev) is token))
                want["number_points"], want["elevation"] = None, 0
                v.ensure("the footprint with default points at the surface", z3.BoolVal(v.call(cls.compute_footprint, o, trk) is token))
            finally:
                CONTRACTS.clear()
                CONTRACTS.update(saved)
        V.vc(f"{cls.__name__}.compute_footprint", body)

        def centre(v, cls=cls):
            trk, n, elev = scene(v, False)
            f = fields(v, cls)
            o = SObj(cls, f)
            point = cls is PointedInstrument
            roll, pitch = (f["roll_angle"], f["pitch_angle"]) if point else (0, 0)
            CUR["ray"] = lambda j: ray_spec(j, pitch, roll, 0, 0)
            outcome(v, v.call(cls.compute_footprint_center, o, trk, elev), None)
        V.vc(f"{cls.__name__}.compute_footprint_center: the boresight", centre)

    def off(f, i, j):
        """degrees off the boresight of pixel (i, j): evenly spaced, symmetric."""
        c = (i * 2 - f["cross_track_pixels"] + 1) * f["cross_track_field_of_view"] * (1 - f["cross_track_oversampling"]) / f["cross_track_pixels"] / 2
        a = (f["along_track_pixels"] - 1 - j * 2) * f["along_track_field_of_view"] * (1 - f["along_track_oversampling"]) / f["along_track_pixels"] / 2
        return c, a

    def cone(v):
        scene(v, False)
        f = fields(v, PointedInstrument)
        i, j = v.int("i", ge=0), v.int("j", ge=0)
        v.assume(z3.And(zb(i < f["cross_track_pixels"]), zb(j < f["along_track_pixels"])))
        r = v.call(PointedInstrument.get_pixel_cone_and_clock_angle, SObj(PointedInstrument, f), i, j)
        c, a = off(f, i, j)
        k, w = r
        v.lemma("cone angle", z3.And(zb(k >= 0), equal(k * k, c * c + a * a)))
        x, y, kk = v.real("x"), v.real("y"), v.real("kk")
        v.assume(z3.And(equal(x, c), equal(y, a), equal(kk, k)))
        v.ensure("clock angle of the offset", z3.And(equal(k * M.cos(w), c), equal(k * M.sin(w), a)))
    V.vc("get_pixel_cone_and_clock_angle: polar form of evenly spaced offsets", cone)

    def pixel(v):
        trk, n, elev = scene(v, False)
        f = fields(v, PointedInstrument)
        i, j = v.int("i", ge=0), v.int("j", ge=0)
        k, w = v.real("cone", ge=0, lt=90), v.real("clock")
        CONTRACTS["tatc.schemas.instrument.PointedInstrument.get_pixel_cone_and_clock_angle"] = lambda interp, a, kw: (core.oblig("angles of the same pixel", z3.And(equal(a[1], i), equal(a[2], j))), (k, w))[1]
        try:
            x, y = M.cos(w) * M.tan(M.rad(k)), M.sin(w) * M.tan(M.rad(k))
            CUR["ray"] = lambda t: ray_spec(t, f["pitch_angle"], f["roll_angle"], x, y)
            outcome(v, v.call(PointedInstrument.compute_projected_pixel_position, SObj(PointedInstrument, f), trk, i, j, elev), None)
        finally:
            CONTRACTS.pop("tatc.schemas.instrument.PointedInstrument.get_pixel_cone_and_clock_angle", None)
    V.vc("compute_projected_pixel_position: the ray at the cone and clock angle", pixel)

    psig = inspect.signature(PointedInstrument.compute_projected_pixel_position)
    for several in (False, True):
        def array(v, several=several):
            trk, n, elev = scene(v, several)
            f = fields(v, PointedInstrument)
            o = SObj(PointedInstrument, f)

            def pix(interp, a, k):
                b = psig.bind(*a, **k)
                b.apply_defaults()
                b = b.arguments
                core.oblig("pixel: same instrument, track and elevation", z3.And(z3.BoolVal(b["self"] is o and b["orbit_track"] is trk), equal(b["elevation"], elev)))
                i, j = seq.zi(b["cross_track_index"]), seq.zi(b["along_track_index"])
                g = lambda q: Num(q(i, j, z3.IntVal(0))) if n is None else Seq(n, lambda t: Num(q(i, j, t)), True)
                return Place(*[g(q) for q in PIX])
            saved = dict(CONTRACTS)
            CONTRACTS["tatc.schemas.instrument.PointedInstrument.compute_projected_pixel_position"] = pix
            try:
                r = v.call(PointedInstrument.compute_footprint_pixel_array, o, trk, elev)
            finally:
                CONTRACTS.clear()
                CONTRACTS.update(saved)
            cp, ap = f["cross_track_pixels"].e, f["along_track_pixels"].e

            def spec(k):
                i, j = z3.Ints("i j")
                yield "each pixel in its place", cp * ap, i * ap + j, z3.And(i >= 0, i < cp, j >= 0, j < ap), tuple(Num(PIX[c](i, j, k)) for c in (1, 0, 2))
            rings(v, r, n, spec, "pixels")
        V.vc(f"compute_footprint_pixel_array, {'any number of times' if several else 'one time'}", array)
