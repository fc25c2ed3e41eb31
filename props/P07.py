"""P07 element set fields."""
import math, random
from datetime import datetime, timedelta, timezone
from fractions import Fraction as F
import z3
from vf.session import Fail, Skip, expect, expect_close, angdiff
from vf.spec import M
from vf import core, seq, strs
from vf.core import Num, zb, ctx, Unsupported, frac_of_float, equal
from vf.strs import CH, LEN, SStr, INTV, FLTV, DECV, digit
from vf.interp import SObj, MODELS, CONTRACTS
from vf.models import SText
from vf.tmodel import SDelta, STime
from vf.orb import tle_lines, checksum, gen_epoch, epoch_of, TwoLineElements, UTC, PUB, RMEAN
from props import P06
from props.P03 import spec_m2t
from sgp4.api import Satrec
from tatc import utils, constants

ASSUMPTIONS = ["int()/float() of a text column range is the number written there; fields left blank are outside the property"]
ALPHA = "ABCDEFGHJKLMNPQRSTUVWXYZ"


def check(i):
    lines = [l for s in i["sets"] for l in s]
    o = TwoLineElements(tle=lines)
    expect(o.get_tle_count() == len(i["sets"]), f"{lines}: element set count {o.get_tle_count()}", "count")
    for k, (l1, l2) in enumerate(i["sets"]):
        args = [(k,), ()] if k == 0 else [(k,)]
        for a in args:
            w = f"{l1!r} / {l2!r} (set {k} of {len(i['sets'])})"
            c = l1[2:7]
            cat = int(c) if not c[0].isalpha() else (10 + ALPHA.index(c[0])) * 10000 + int(c[1:])
            eq = lambda n, g, x: expect(g == x, f"{w}: {n} {g!r} expected {x!r}", n)
            eq("catalog", o.get_catalog_number(*a), cat)
            eq("class", o.get_classification(*a), l1[7])
            yy = l1[9:11]
            eq("designator", o.get_international_designator(*a), (("20" if int(yy) < 57 else "19") + yy + "-" + l1[11:17]).strip())
            e = o.get_epoch(*a)
            y = int(l1[18:20])
            x = datetime(2000 + y if y < 57 else 1900 + y, 1, 1, tzinfo=UTC) + timedelta(days=float(l1[20:32]) - 1)
            expect(abs((e - x).total_seconds()) < 1e-3, f"{w}: epoch {e} expected {x}", "epoch")
            dec = lambda s: (-1 if s[0] == "-" else 1) * float("0." + s[1:6]) * 10.0 ** int(s[6:8])
            cl = lambda n, g, x: expect_close(g, x, f"{w}: {n}", 1e-9, 1e-30, n)
            cl("ndot", o.get_first_derivative_mean_motion(*a), float(l1[33:43]))
            cl("nddot", o.get_second_derivative_mean_motion(*a), dec(l1[44:52]))
            cl("bstar", o.get_b_star(*a), dec(l1[53:61]))
            eq("ephemeris", o.get_ephemeris_type(*a), int(l1[62]))
            eq("set", o.get_element_set_number(*a), int(l1[64:68]))
            cl("incl", o.get_inclination(*a), float(l2[8:16]))
            cl("raan", o.get_right_ascension_ascending_node(*a), float(l2[17:25]))
            ecc, mean, n = float("0." + l2[26:33]), float(l2[43:51]), float(l2[52:63])
            cl("ecc", o.get_eccentricity(*a), ecc)
            cl("argp", o.get_perigee_argument(*a), float(l2[34:42]))
            cl("mean", o.get_mean_anomaly(*a), mean)
            cl("n", o.get_mean_motion(*a), n)
            eq("rev", o.get_revolution_number_at_epoch(*a), int(l2[63:68]))
            expect(abs(o.get_orbit_period(*a).total_seconds() - 86400 / n) < 1e-5, f"{w}: period", "period")
            sma = (PUB["mu"] / (n * 2 * math.pi / 86400) ** 2) ** (1 / 3)
            expect_close(o.get_semimajor_axis(*a), sma, f"{w}: semimajor axis", 1e-9, 0, "sma")
            expect_close(o.get_altitude(*a), sma - RMEAN, f"{w}: altitude", 1e-9, 1e-2, "altitude")
            q = math.radians(mean)
            nu = math.degrees(q + (2 * ecc - ecc**3 / 4) * math.sin(q) + 5 * ecc**2 / 4 * math.sin(2 * q) + 13 * ecc**3 / 12 * math.sin(3 * q))
            expect(abs(angdiff(o.get_true_anomaly(*a), nu)) < 1e-8, f"{w}: true anomaly {o.get_true_anomaly(*a)} expected {nu}", "true")
    expect(o.to_tle() is o or o.to_tle().tle == o.tle, "to_tle of an element set", "to_tle")


def deductive(V):
    T = TwoLineElements
    iv = lambda j, a, b: Num(INTV(j, z3.IntVal(a), z3.IntVal(b)))
    fv = lambda j, a, b: Num(FLTV(j, z3.IntVal(a), z3.IntVal(b)))
    dv = lambda j, a, b: Num(DECV(j, z3.IntVal(a), z3.IntVal(b)))

    def expo(j, a):
        p = Num(strs_pow(zi=iv(j, a + 6, a + 8)))
        return core.ite(CH(j, z3.IntVal(a)) == 45, -dv(j, a + 1, a + 6), dv(j, a + 1, a + 6)) * p

    def strs_pow(zi):
        return core.power(10, zi).e

    one = {
        "get_first_derivative_mean_motion": lambda a, b: fv(a, 33, 43),
        "get_second_derivative_mean_motion": lambda a, b: expo(a, 44),
        "get_b_star": lambda a, b: expo(a, 53),
        "get_element_set_number": lambda a, b: iv(a, 64, 68),
        "get_inclination": lambda a, b: fv(b, 8, 16),
        "get_right_ascension_ascending_node": lambda a, b: fv(b, 17, 25),
        "get_eccentricity": lambda a, b: dv(b, 26, 33),
        "get_perigee_argument": lambda a, b: fv(b, 34, 42),
        "get_mean_anomaly": lambda a, b: fv(b, 43, 51),
        "get_mean_motion": lambda a, b: fv(b, 52, 63),
        "get_revolution_number_at_epoch": lambda a, b: iv(b, 63, 68),
    }

    def setup(v):
        n = v.int("sets", ge=1)
        i = v.int("index", ge=0)
        v.assume(i.e < n.e)
        o = SObj(T, dict(type="tle", tle=strs.lines(2 * n.e)))
        a, b = 2 * i.e, 2 * i.e + 1
        for j in (a, b):
            v.assume(LEN(j) == 69)
        return o, n, i, a, b

    for name, sp in one.items():
        def body(v, name=name, sp=sp):
            o, n, i, a, b = setup(v)
            r = v.call(getattr(T, name), o, i)
            v.ensure("value of its columns in that element set", r == sp(a, b))
        V.vc(f"{name}(i) for every index", body)

    def body_default(v):
        o, n, i, a, b = setup(v)
        v.assume(i.e == 0)
        for name, sp in one.items():
            r = v.call(getattr(T, name), o)
            v.ensure(f"{name}() is the first set's", equal(r, v.call(getattr(T, name), o, 0)))
    V.vc("index defaults to the first element set", body_default)

    def body_count(v):
        o, n, i, a, b = setup(v)
        v.ensure("half the number of lines", v.call(T.get_tle_count, o) == n)
    V.vc("get_tle_count", body_count)

    def body_class(v):
        o, n, i, a, b = setup(v)
        r = v.call(T.get_classification, o, i)
        v.ensure("column 8 of line 1", isinstance(r, SStr) and (r.lo, r.hi) == (7, 8) and z3.simplify(r.j == a))
        d = z3.And(CH(a, z3.IntVal(62)) >= 48, CH(a, z3.IntVal(62)) <= 57)
        v.assume(d)
        v.ensure("ephemeris type digit", v.call(T.get_ephemeris_type, o, i) == Num(CH(a, z3.IntVal(62)) - 48))
    V.vc("get_classification, get_ephemeris_type", body_class)

    def body_cat(v):
        o, n, i, a, b = setup(v)
        c = CH(a, z3.IntVal(2))
        v.assume(z3.Or(z3.And(c >= 48, c <= 57), c == 32, z3.And(c >= 65, c <= 90, c != 73, c != 79)))
        r = v.call(T.get_catalog_number, o, i)
        k = c - 65 + 10 - z3.If(c > 73, 1, 0) - z3.If(c > 79, 1, 0)
        v.ensure("number, or letter-prefixed number", zb(r == core.ite(c >= 65, Num(k) * 10000 + iv(a, 3, 7), iv(a, 2, 7))))
    V.vc("get_catalog_number", body_cat)

    def body_desig(v):
        o, n, i, a, b = setup(v)
        y0, y1 = CH(a, z3.IntVal(9)), CH(a, z3.IntVal(10))
        v.assume(z3.And(y0 >= 48, y0 <= 57, y1 >= 48, y1 <= 57))
        r = v.call(T.get_international_designator, o, i)
        if not isinstance(r, SText):
            raise Unsupported("designator form")
        ps = [p for p in r.parts if p != ""]
        ps = ps[1:] if ps and ps[0] == "strip(" else ps
        flat = ""
        for p in ps:
            flat += p if isinstance(p, str) else "<%d:%d>" % (p.lo, p.hi) if isinstance(p, SStr) else "?"
        if "?" in flat:
            raise Unsupported(f"designator parts {[type(p).__name__ for p in ps]}")
        flat = flat.replace("<11:14><14:17>", "<11:17>")
        v.ensure("century, year, launch and piece", flat in ("20<9:11>-<11:17>", "19<9:11>-<11:17>"))
        yy = Num(INTV(a, z3.IntVal(9), z3.IntVal(11)))
        v.ensure("century by the pivot year 57", (yy < 57) if flat.startswith("20") else (yy >= 57))
        for p in ps:
            if isinstance(p, SStr):
                v.ensure("columns of line 1 of the set", p.j == a)
    V.vc("get_international_designator", body_desig)

    MODELS[Satrec.twoline2rv] = P06.m_twoline
    try:
        def body_epoch(v):
            o, n, i, a, b = setup(v)
            r = v.call(T.get_epoch, o, i)
            v.ensure("epoch of the two lines of that set", r == STime(P06.EPOCH(a, b)))
        V.vc("get_epoch", body_epoch)
    finally:
        MODELS[Satrec.twoline2rv] = P06._old

    def body_derived(v):
        o, n, i, a, b = setup(v)
        mm = fv(b, 52, 63)
        v.assume(mm > 0)
        per = v.call(T.get_orbit_period, o, i)
        v.ensure("period is one over mean motion", per.num() * mm == 86400)
        s = v.call(T.get_semimajor_axis, o, i)
        mu, R = frac_of_float(constants.EARTH_MU), frac_of_float(constants.EARTH_MEAN_RADIUS)
        q = mm * 2 * M.pi * F(1, 86400)
        v.ensure("Kepler's third law", s == M.cbrt(mu / (q * q)))
        v.ensure("altitude above the mean radius", v.call(T.get_altitude, o, i) == s - R)
        v.ensure("true anomaly of the mean anomaly", v.call(T.get_true_anomaly, o, i) == spec_m2t(fv(b, 43, 51), dv(b, 26, 33), M.sin, M.rad, M.deg))
    V.vc("period, semimajor axis, altitude, true anomaly", body_derived)


def concrete(C):
    def gen(r):
        t = epoch_of(gen_epoch(r))
        sets = []
        for k in range(r.choice([1, 1, 2, 3, 4])):
            cat = r.choice(["25544", "00005", "%s%04d" % (r.choice(ALPHA), r.randrange(10000)), "%05d" % r.randrange(100000)])
            sets.append(tle_lines(r, t, dict(cat=cat), rich=r.random() < 0.9))
            t += timedelta(seconds=r.randrange(1, 10**6))
        return dict(sets=sets)
    C.cases("field getters", gen, check, 700, "1..4 random element sets with signed drag terms and Alpha-5 numbers", share=0.9)
