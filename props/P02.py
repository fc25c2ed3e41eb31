"""P02 period, access time, ground speed."""
import math
from fractions import Fraction
from vf.session import Fail, expect, expect_close
from vf.spec import M
from vf.core import frac_of_float
from tatc import utils, constants

PUB = dict(mu=3.986004418e14, a=6378137.0, b=6356752.314245, sid=86164.0905)


def consts():
    return (frac_of_float(constants.EARTH_MU), frac_of_float(constants.EARTH_MEAN_RADIUS), frac_of_float(constants.EARTH_SIDEREAL_DAY_S))


def speed(h, i, K, m):
    mu, R, T = K
    a = R + h
    return R * (m["sqrt"](mu / (a * a * a)) - 2 * m["pi"] * m["cos"](m["rad"](i)) / T)


SYM = dict(sqrt=M.sqrt, pi=M.pi, cos=M.cos, rad=M.rad)
FLT = dict(sqrt=math.sqrt, pi=math.pi, cos=math.cos, rad=math.radians)


def fk():
    return PUB["mu"], (2 * PUB["a"] + PUB["b"]) / 3, PUB["sid"]


def check(i):
    h, inc, d, e = i["altitude"], i["inclination"], i["distance"], i["elevation"]
    K = fk()
    mu, R, _ = K
    a = R + h
    expect_close(utils.compute_orbit_period(h), 2 * math.pi * math.sqrt(a ** 3 / mu), f"orbit period at {h} m", 1e-9)
    expect_close(utils.compute_max_access_time(h, e), math.radians(180 - 2 * e) * a / math.sqrt(mu / a), f"max access time at {h} m, {e} deg", 1e-9, 1e-7)
    v = speed(h, inc, K, FLT)
    expect_close(utils.compute_ground_velocity(h, inc), v, f"ground speed at {h} m, inclination {inc}", 1e-9, 1e-6)
    if abs(v) > 1:
        t = utils.along_track_distance_to_access_time(h, inc, d)
        expect_close(t, d / v, f"access time of {d} m at {h} m, inclination {inc}", 1e-8, 1e-9)
        expect_close(utils.access_time_to_along_track_distance(h, inc, t), d, "distance of access time of distance", 1e-8, 1e-6)
    expect_close(utils.access_time_to_along_track_distance(h, inc, d), d * v, f"distance in {d} s", 1e-9, 1e-6)


def deductive(V):
    def body_const(v):
        mu, R, T = consts()
        f = lambda x, y, tol: abs(Fraction(x) / frac_of_float(y) - 1) < Fraction(tol).limit_denominator(10**15)
        v.ensure("gravitational parameter is the published value", f(mu, PUB["mu"], 1e-9))
        v.ensure("mean radius is (2a+b)/3 of the published axes", f(R, (2 * PUB["a"] + PUB["b"]) / 3, 1e-9))
        v.ensure("sidereal day is the published value", f(T, PUB["sid"], 1e-7))
    V.vc("constants used by the specification", body_const, replay=lambda i: check(dict(altitude=400e3, inclination=30.0, distance=1e5, elevation=10.0)))

    def pre(v):
        h = v.real("altitude", gt=-6000000)
        i = v.real("inclination", ge=0, le=180)
        return h, i

    rep = lambda i: check(dict(dict(altitude=400e3, inclination=30.0, distance=1e5, elevation=10.0), **i))

    def body1(v):
        h, i = pre(v)
        mu, R, T = consts()
        a = h + R
        r = v.call(utils.compute_orbit_period, h)
        n = M.sqrt(mu / (a * a * a))
        v.ensure("period times mean motion is one turn", r * n == 2 * M.pi)
        v.ensure("Kepler's third law", r * r * mu == 4 * M.pi * M.pi * a * a * a)
    V.vc("compute_orbit_period", body1, replay=rep)

    def body2(v):
        h, i = pre(v)
        e = v.real("elevation", ge=0, le=90)
        mu, R, T = consts()
        a = h + R
        r = v.call(utils.compute_max_access_time, h, e)
        v.ensure("time at circular speed over the arc", r * M.sqrt(mu / a) == a * (M.pi - 2 * M.rad(e)))
    V.vc("compute_max_access_time", body2, replay=rep)

    def body3(v):
        h, i = pre(v)
        v.ensure("ground speed", v.call(utils.compute_ground_velocity, h, i) == speed(h, i, consts(), SYM))
    V.vc("compute_ground_velocity", body3, replay=rep)

    def body4(v):
        h, i = pre(v)
        d = v.real("distance")
        g = speed(h, i, consts(), SYM)
        v.assume(g != 0)
        t = v.call(utils.along_track_distance_to_access_time, h, i, d)
        v.ensure("distance = speed * time", t * g == d)
        b = v.call(utils.access_time_to_along_track_distance, h, i, d)
        v.ensure("time * speed = distance", b == d * g)
        v.ensure("inverse", v.call(utils.access_time_to_along_track_distance, h, i, t) == d)
    V.vc("along-track distance and access time are proportional by ground speed", body4, replay=rep)


def concrete(C):
    def gen(r):
        return dict(altitude=r.choice([0.0, 2e5, 4e5, 35786e3, r.uniform(1e5, 2e6), 10 ** r.uniform(5, 8)]),
                    inclination=r.choice([0.0, 90.0, 180.0, 98.2, r.uniform(0, 180)]), distance=r.choice([0.0, 1.0, 1e5, r.uniform(0, 2e6), 5400.0]),
                    elevation=r.choice([0.0, 90.0, 45.0, r.uniform(0, 90)]))
    C.cases("conversions", gen, check, 600, "altitudes 0..1e8 m, inclinations 0..180, elevation angles 0..90")
