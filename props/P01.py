"""P01 viewing-geometry conversions (spherical Earth of mean radius)."""
import math
from vf.session import Fail, Skip, expect, expect_close
from vf.spec import M
from vf.core import frac_of_float
from vf.interp import SObj
from tatc import utils, constants
from tatc.schemas.instrument import Instrument, PointedInstrument
from fractions import Fraction as F

R0 = (2 * 6378137.0 + 6356752.314245) / 3


def deg(x):
    return math.degrees(x)


# ---------------------------------------------------------------- concrete contract
def tri(h, el, lam):
    """half view angle and elevation angle (deg) of a ground point at central angle lam, by coordinates."""
    r, a = R0 + el, R0 + h
    x, y = r * math.sin(lam), a - r * math.cos(lam)
    eta = math.atan2(x, y)
    return deg(eta), deg(math.pi / 2 - eta - lam)


def check_triangle(i):
    """a ground point at fraction f of the horizon: all four conversions describe its triangle."""
    h, el, f = i["altitude"], i["elevation"], i["fraction"]
    if not (h > el > -6e6) or not 0 <= f <= 1:
        raise Skip()
    rho = (R0 + el) / (R0 + h)
    lam = f * math.acos(rho)
    eta, eps = tri(h, el, lam)
    FOR, w = 2 * eta, 2 * (R0 + el) * lam
    # conditioning: near the horizon angles depend on the square root of the data
    tol = 1e-6 if f < 0.999 else 2e-4
    expect_close(utils.compute_min_elevation_angle(h, FOR, el), eps, f"min elevation angle of field of regard {FOR}", 1e-8, tol)
    expect_close(utils.compute_field_of_regard(h, eps, el), FOR, f"field of regard of min elevation angle {eps}", 1e-8, tol)
    expect_close(utils.swath_width_to_field_of_regard(h, w, el), FOR, f"field of regard of swath {w}", 1e-8, tol)
    expect_close(utils.field_of_regard_to_swath_width(h, FOR, el), w, f"swath of field of regard {FOR}", 1e-7, tol * 3e5)
    # round trips
    expect_close(utils.compute_field_of_regard(h, utils.compute_min_elevation_angle(h, FOR, el), el), FOR, "regard -> elevation -> regard", 1e-8, tol)
    expect_close(utils.swath_width_to_field_of_regard(h, utils.field_of_regard_to_swath_width(h, FOR, el), el), FOR, "regard -> swath -> regard", 1e-8, tol)


def check_clamp(i):
    h, el, FOR = i["altitude"], i["elevation"], i["field_of_regard"]
    if not (h > el > -6e6) or not 0 <= FOR <= 180:
        raise Skip()
    rho = (R0 + el) / (R0 + h)
    hor = 2 * deg(math.asin(rho))
    if FOR <= hor:
        raise Skip()
    tol = 1e-4
    e = utils.compute_min_elevation_angle(h, FOR, el)
    if math.sin(math.radians(FOR / 2)) > rho * (1 + 1e-9):
        expect_close(e, 0.0, f"min elevation angle past the horizon (field of regard {FOR})", 0, 1e-9)
    w = utils.field_of_regard_to_swath_width(h, FOR, el)
    expect_close(w, 2 * (R0 + el) * math.acos(rho), f"swath past the horizon (field of regard {FOR})", 1e-7, 1)


def check_fov(i):
    h, el, look, w = i["altitude"], i["elevation"], i["look_angle"], i["swath_width"]
    if not (h > el > -6e6) or look < 0 or w < 0:
        raise Skip()
    r, a = R0 + el, R0 + h
    rho = r / a
    se = math.sin(math.radians(look))
    if look >= 90 or se >= rho * (1 - 1e-9):
        raise Skip()
    lam = math.asin(se / rho) - math.radians(look)
    half = w / 2 / r
    if lam + half > math.acos(rho):
        raise Skip()
    e1 = math.atan2(r * math.sin(lam - half), a - r * math.cos(lam - half))
    e2 = math.atan2(r * math.sin(lam + half), a - r * math.cos(lam + half))
    expect_close(utils.swath_width_to_field_of_view(h, w, look, el), deg(e2 - e1), f"field of view of swath {w} at look angle {look}", 1e-7, 1e-6)
    expect_close(utils.swath_width_to_field_of_view(h, w, 0.0, el), utils.swath_width_to_field_of_regard(h, w, el), "field of view at nadir", 1e-8, 1e-6)


# ---------------------------------------------------------------- deductive contracts
def deductive(V):
    Rm = frac_of_float(constants.EARTH_MEAN_RADIUS)

    def pre(v, past=False):
        h, el = v.real("altitude"), v.real("elevation", gt=-Rm)
        v.assume(h > el)
        r, a = Rm + el, Rm + h
        rho = r / a
        v.lemma("0 < rho < 1", (rho > 0) & (rho < 1))
        return h, el, r, a, rho

    def regard(v):
        f = v.real("field_of_regard", ge=0, le=180)
        s = M.sin(M.rad(f) * F(1, 2))
        v.assume(s == M.sin(M.rad(f) * F(1, 2)))
        return f, s

    def rep_tri(i):
        h, el = i.get("altitude", 4e5), i.get("elevation", 0.0)
        if not (h > el and el > -6e6):
            h, el = 4e5, 0.0
        for f in (0.0, 0.1, 0.5, 0.9):
            check_triangle(dict(altitude=h, elevation=el, fraction=f))
        rho = (R0 + el) / (R0 + h)
        for x in (0.05, 0.5, 0.95):
            check_clamp(dict(altitude=h, elevation=el, field_of_regard=180 * x + (1 - x) * 2 * deg(math.asin(rho))))

    def c_elev(v):
        h, el, r, a, rho = pre(v)
        f, s = regard(v)
        e = v.call(utils.compute_min_elevation_angle, h, f, el)
        v.ensure("range", (e >= 0) & (e <= 90))
        inside = s <= rho
        import z3
        from vf.core import zb
        v.ensure("inside the horizon: rho cos(eps) = sin(eta)", z3.Implies(zb(inside), zb(rho * M.cos(M.rad(e)) == s)) if not isinstance(e, int) else z3.Implies(zb(inside), zb(s == rho * 1)))
        v.ensure("past the horizon: zero", z3.Implies(zb(s > rho), zb(e == 0)) if not isinstance(e, int) else e == 0)
    V.vc("compute_min_elevation_angle solves the viewing triangle, clamped at the horizon", c_elev, replay=rep_tri)

    def c_for(v):
        h, el, r, a, rho = pre(v)
        e = v.real("min_elevation_angle", ge=0, le=90)
        c = M.cos(M.rad(e))
        v.lemma("cosine of elevation angle within [0,1]", (c >= 0) & (c <= 1))
        v.lemma("sine of half regard at most rho", (rho * c >= 0) & (rho * c <= rho))
        f = v.call(utils.compute_field_of_regard, h, e, el)
        v.ensure("half regard has sine rho cos(eps)", f == 2 * M.deg(M.asin(rho * c)))
        v.ensure("range", (f >= 0) & (f < 180))
    V.vc("compute_field_of_regard solves the viewing triangle", c_for, replay=rep_tri)

    def rt1(v):
        h, el, r, a, rho = pre(v)
        f, s = regard(v)
        v.assume(s <= rho)
        v.lemma("sine range", (s >= 0) & (s <= 1))
        v.lemma("asin(sin(half regard))", M.asin(s) == M.rad(f) * F(1, 2))
        v.lemma("division", rho * (s / rho) == s)
        e = v.call(utils.compute_min_elevation_angle, h, f, el)
        if isinstance(e, int):
            v.ensure("horizon case unreachable inside the horizon", False)
            return
        g = v.call(utils.compute_field_of_regard, h, e, el)
        v.ensure("regard -> elevation -> regard is the identity", g == f)
    V.vc("field of regard round trip through minimum elevation angle", rt1, replay=rep_tri)

    def c_swath(v):
        h, el, r, a, rho = pre(v)
        f, s = regard(v)
        w = v.call(utils.field_of_regard_to_swath_width, h, f, el)
        from vf.core import ite, zb
        import z3
        se = ite(zb(s <= rho), s, rho)
        lam = M.pi * F(1, 2) - M.asin(se) - M.acos(se / rho)
        v.ensure("swath is the arc of the viewing triangle, clamped at the horizon", w == 2 * r * lam)
        v.ensure("past the horizon the arc to the horizon", z3.Implies(zb(s >= rho), zb(w == 2 * r * (M.pi * F(1, 2) - M.asin(rho)))),
                 hints=[])
    V.vc("field_of_regard_to_swath_width solves the viewing triangle, clamped at the horizon", c_swath, replay=rep_tri)

    def c_swath2(v):
        h, el, r, a, rho = pre(v)
        lam = v.real("lambda", ge=0)
        v.assume(lam <= M.pi * F(1, 2))
        w = 2 * r * lam
        v.lemma("division", w * F(1, 2) / r == lam)
        sl = M.sin(lam)
        v.lemma("sine", (sl >= 0) & (sl <= 1))
        v.lemma("asin(sin(lambda))", M.asin(sl) == lam)
        f = v.call(utils.swath_width_to_field_of_regard, h, w, el)
        v.ensure("half regard has the triangle's tangent", f == 2 * M.deg(M.atan(rho * sl / (1 - rho * M.cos(lam)))))
    V.vc("swath_width_to_field_of_regard solves the viewing triangle", c_swath2, replay=rep_tri)

    def rt2(v):
        h, el, r, a, rho = pre(v)
        lam = v.real("lambda", ge=0)
        sl, cl = M.sin(lam), M.cos(lam)
        v.assume(lam <= M.pi * F(1, 2))
        v.assume(cl >= rho)  # inside the horizon
        v.assume(sl * sl + cl * cl == 1)
        v.lemma("sine", (sl >= 0) & (sl <= 1))
        q = 1 - rho * cl
        v.lemma("denominator", q > 0)
        t = rho * sl / q
        v.lemma("tangent", (t * q == rho * sl) & (t >= 0))
        eta = M.atan(t)
        f = 2 * M.deg(eta)
        # contract of swath_width_to_field_of_regard gives f for w = 2 r lam
        v.lemma("eta range", (eta >= 0) & (eta < M.pi * F(1, 2)))
        s = M.sin(M.rad(f) * F(1, 2))
        D = M.sqrt(1 + t * t)
        v.lemma("secant", (D >= 1) & (D * D == 1 + t * t))
        v.lemma("sine of eta", (s * D == t))
        c = M.cos(eta)
        v.lemma("cosine of eta", (c * D == 1) & (c > 0))
        v.lemma("s = t c", s == t * c)
        v.lemma("(q^2 + rho^2 sl^2) c^2 = q^2", c * c * (q * q + rho * rho * sl * sl) == q * q)
        sp = sl * c + cl * s
        cp = cl * c - sl * s
        v.lemma("q sin(lam+eta) = sl c", sp * q == sl * c)
        v.lemma("q s = rho sl c", s * q == rho * sl * c)
        v.lemma("rho sin(lam+eta) = s", rho * sp == s)
        v.lemma("q cos(lam+eta) = (cl - rho) c", cp * q == (cl - rho) * c)
        v.lemma("cos(lam+eta) not negative", cp >= 0)
        v.lemma("sin(lam+eta) not negative", sp >= 0)
        v.lemma("unit", sp * sp + cp * cp == 1)
        v.lemma("at most one", sp <= 1)
        x = lam + eta
        import z3
        from vf.core import UF1, Num, zr
        raw = zr(x)
        S, Cc = Num(UF1["sin"](raw)), Num(UF1["cos"](raw))
        v.assume((S == sp) & (Cc == cp))  # addition theorem (trusted mathematics)
        v.lemma("range of lam+eta", x < M.pi)
        v.lemma("lam+eta at most a right angle", x <= M.pi * F(1, 2))
        v.lemma("asin of its sine", Num(UF1["asin"](UF1["sin"](raw))) == x)
        se = Num(UF1["sin"](zr(eta)))
        v.assume(se * D == t)  # sin(atan t) = t / sqrt(1 + t^2) (trusted mathematics)
        v.lemma("sine of eta is s", se == s)
        v.lemma("asin of sine of eta", Num(UF1["asin"](zr(se))) == eta)
        v.lemma("asin of s", M.asin(s) == eta)
        v.lemma("s at most rho", s <= rho)
        v.lemma("s over rho", s / rho == S)
        v.lemma("acos of s over rho", M.acos(s / rho) == M.pi * F(1, 2) - x)
        w = v.call(utils.field_of_regard_to_swath_width, h, f, el)
        v.ensure("swath -> regard -> swath is the identity inside the horizon", w == 2 * r * lam)
    V.vc("swath width round trip through field of regard", rt2, replay=rep_tri)

    def c_fov0(v):
        h, el, r, a, rho = pre(v)
        w = v.real("swath_width", ge=0)
        v.ensure("field of view at zero look angle is the nadir field of regard",
                 v.call(utils.swath_width_to_field_of_view, h, w, 0, el) == v.call(utils.swath_width_to_field_of_regard, h, w, el))
    V.vc("swath_width_to_field_of_view at nadir", c_fov0, replay=rep_tri)

    def c_fov(v):
        h, el, r, a, rho = pre(v)
        w, look = v.real("swath_width", ge=0), v.real("look_angle", ge=0, lt=90)
        sl = M.sin(M.rad(look))
        v.assume(sl <= rho)
        v.lemma("sine", (sl >= 0) & (sl <= 1))
        lam = M.pi * F(1, 2) - M.asin(sl) - M.acos(sl / rho)
        half = w * F(1, 2) / r
        s1, s2 = M.sin(lam - half), M.sin(lam + half)
        f = v.call(utils.swath_width_to_field_of_view, h, w, look, el)
        t = lambda s: M.atan(rho * s / (1 - rho * M.cos(M.asin(s))))
        v.ensure("difference of the view angles of the two swath edges", f == M.deg(t(s2) - t(s1)))
    V.vc("swath_width_to_field_of_view subtends the swath centred on the look direction", c_fov,
         trig_expand=False,
         replay=lambda i: check_fov(dict(dict(altitude=4e5, elevation=0.0, look_angle=20.0, swath_width=1e5), **i)))

    def c_inst(v):
        h, f = v.real("height", gt=0), v.real("field_of_regard", gt=0, le=180)
        for cls in (Instrument, PointedInstrument):
            o = SObj(cls, dict({k: None for k in cls.model_fields}, name="inst", field_of_regard=f))
            v.ensure(f"{cls.__name__}: swath width of its field of regard at the surface", v.call(cls.get_swath_width, o, h) == v.call(utils.field_of_regard_to_swath_width, h, f, 0))
            v.ensure(f"{cls.__name__}: minimum elevation angle of its field of regard", v.call(cls.get_min_elevation_angle, o, h) == v.call(utils.compute_min_elevation_angle, h, f, 0))
    V.vc("instruments report the triangle of their field of regard", c_inst, replay=lambda i: check_inst(dict(dict(altitude=i.get("height", 5e5), elevation=0, field_of_regard=60.0), **{k: x for k, x in i.items() if k == "field_of_regard"})))


def check_inst(i):
    h, FOR = i["altitude"], i["field_of_regard"]
    if FOR <= 0 or h <= 0:
        raise Skip()
    for o in (Instrument(name="i", field_of_regard=FOR), PointedInstrument(name="p", field_of_regard=FOR, cross_track_field_of_view=10, along_track_field_of_view=5)):
        rho = R0 / (R0 + h)
        s = math.sin(math.radians(FOR / 2))
        if abs(s - rho) < 1e-6:
            raise Skip()
        x = min(s, rho)
        lam = math.pi / 2 - math.asin(x) - math.acos(min(1, x / rho))
        expect_close(o.get_swath_width(h), 2 * R0 * lam, f"{type(o).__name__}: swath width at {h} m of a field of regard of {FOR}", 1e-7, 1)
        expect_close(o.get_min_elevation_angle(h), deg(math.acos(min(1, s / rho))) if s < rho else 0.0, f"{type(o).__name__}: minimum elevation angle at {h} m of a field of regard of {FOR}", 1e-7, 1e-4)


def concrete(C):
    def gen(r):
        h = r.choice([2e5, 4e5, 8e5, 2e6, 35786e3, r.uniform(1.5e5, 2e6), 10 ** r.uniform(5, 8)])
        el = r.choice([0.0, 0.0, -400.0, 8000.0, r.uniform(-400, 9000), h * r.random() * 0.9])
        FOR = r.choice([0.0, 180.0, 179.9, r.uniform(0, 180)])
        return dict(altitude=h, elevation=el, fraction=r.choice([0.0, 0.5, 0.9, r.random(), r.random() ** 3]), field_of_regard=FOR,
                    look_angle=r.choice([0.0, 10.0, 45.0, r.uniform(0, 70)]), swath_width=r.choice([0.0, 1e4, 2e5, r.uniform(0, 3e6)]))
    C.cases("viewing triangle", gen, check_triangle, 800, "ground points from nadir to the horizon")
    C.cases("past the horizon", gen, check_clamp, 600, "fields of regard between the horizon and 180 degrees")
    C.cases("field of view", gen, check_fov, 800, "look angles and swaths inside the horizon")
    C.cases("instruments", gen, check_inst, 300, "instrument getters at any height and field of regard")
