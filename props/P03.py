"""P03 anomaly conversions."""
import math
from vf.session import Fail, expect, expect_close
from vf.spec import M
from fractions import Fraction as F
from tatc import utils


def spec_m2t(m, e, s, rad, deg):
    x = rad(m)
    return deg(x + (2 * e - e * e * e * F(1, 4)) * s(x) + e * e * F(5, 4) * s(2 * x) + e * e * e * F(13, 12) * s(3 * x))


def spec_t2m(t, e, s, rad, deg):
    x = rad(t)
    e2, e4 = e * e, e * e * e * e
    return deg(x - 2 * e * s(x) + (e2 * F(3, 4) + e4 * F(1, 8)) * s(2 * x) - e2 * e * F(1, 3) * s(3 * x) + e4 * F(5, 32) * s(4 * x))


def _c(f, m, e):
    return float(f(float(m), float(e), math.sin, math.radians, math.degrees))


def check_series(i):
    m, e = i["angle"], i["eccentricity"]
    a, b = utils.mean_anomaly_to_true_anomaly(m, e), utils.true_anomaly_to_mean_anomaly(m, e)
    expect_close(a, _c(spec_m2t, m, e), f"true anomaly of mean anomaly {m}, eccentricity {e}", 1e-9, 1e-8)
    expect_close(b, _c(spec_t2m, m, e), f"mean anomaly of true anomaly {m}, eccentricity {e}", 1e-9, 1e-8)


def check_laws(i):
    m, e, k = i["angle"], i["eccentricity"], i["turns"]
    for nm, f in (("mean-to-true", utils.mean_anomaly_to_true_anomaly), ("true-to-mean", utils.true_anomaly_to_mean_anomaly)):
        expect_close(f(m, 0.0), m, f"{nm} of {m} for a circular orbit", 1e-10, 1e-9)
        expect_close(f(-m, e), -f(m, e), f"{nm} is odd at {m}, e={e}", 1e-9, 1e-8)
        expect_close(f(m + 360.0 * k, e), f(m, e) + 360.0 * k, f"{nm} advances by whole turns at {m}, e={e}", 1e-9, 1e-7)
        for fixed in (0.0, 180.0, 360.0, -180.0):
            expect_close(f(fixed, e), fixed, f"{nm} keeps {fixed} fixed, e={e}", 1e-9, 1e-8)


def deductive(V):
    for nm, fn, sp in (("mean_anomaly_to_true_anomaly", utils.mean_anomaly_to_true_anomaly, spec_m2t),
                       ("true_anomaly_to_mean_anomaly", utils.true_anomaly_to_mean_anomaly, spec_t2m)):
        def body(v, fn=fn, sp=sp):
            m, e = v.real("angle"), v.real("eccentricity", ge=0, lt=1)
            r = v.call(fn, m, e)
            v.ensure("result is the series", r == sp(m, e, M.sin, M.rad, M.deg))
        V.vc(f"{nm} follows the series", body, replay=check_series)

        def laws(v, fn=fn):
            m, e, k = v.real("angle"), v.real("eccentricity", ge=0, lt=1), v.int("turns")
            v.ensure("identity for circular orbits", v.call(fn, m, 0) == m)
            v.ensure("default eccentricity is circular", v.call(fn, m) == m)
            v.ensure("perigee fixed", v.call(fn, 0, e) == 0)
            v.ensure("apogee fixed", v.call(fn, 180, e) == 180)
            v.ensure("odd", v.call(fn, -m, e) == -v.call(fn, m, e))
            v.ensure("advances by a full turn", v.call(fn, m + 360, e) == v.call(fn, m, e) + 360)
        V.vc(f"{nm}: identity, fixed points, odd, 360-degree advance", laws, replay=check_laws)


def concrete(C):
    def gen(r):
        return dict(angle=r.choice([0.0, 90.0, 180.0, -90.0, 270.0, 360.0, 720.0, r.uniform(-720, 720), r.uniform(0, 360)]),
                    eccentricity=r.choice([0.0, 0.5, 0.9, 0.99, 1e-6, r.random(), r.uniform(0.6, 0.85)]), turns=r.randint(-4, 4))
    C.cases("series", gen, check_series, 400, "angles in all quadrants and beyond one turn, eccentricities 0..0.99")
    C.cases("laws", gen, check_laws, 400, "as series")
