"""P04 orbit definition -> two-line elements."""
import math
from datetime import timedelta, datetime, timezone
from fractions import Fraction as F
import z3
from vf.session import Fail, Skip, expect, expect_close, angdiff
from vf.spec import M, congruent
from vf import core, orb
from vf.core import Num, frac_of_float, zb
from vf.tmodel import SLine, dt_secs
from vf.orb import KINDS, SUN_RA, sym_orbit, gen_orbit, make, elements, tle_fields, desc_of
from props.P03 import spec_t2m
from tatc import constants, utils

ASSUMPTIONS = ["eccentricity at most 0.85 and mean anomaly in one turn (beyond that the series conversion leaves [0,360] and the export refuses)",
               "rounding of the exported columns is sgp4's"]


def check_fields(o, d, tle, what):
    x = elements(d)
    g = tle_fields(*tle.tle[:2])
    expect(len(tle.tle) == 2, f"{what}: exactly one element set", "count")
    expect(abs((g["epoch"] - x["epoch"]).total_seconds()) < 2e-3, f"{what}: epoch {g['epoch']} expected {x['epoch']}", "epoch")
    for k, tol in (("incl", 6e-5), ("raan", 6e-5), ("argp", 6e-5), ("mean", 6e-5)):
        expect(abs(angdiff(g[k], x[k])) <= tol + (1e-3 if k == "raan" and d["kind"] == "sso" else 0), f"{what}: {k} {g[k]} expected {x[k]}", k)
    expect(abs(g["ecc"] - x["ecc"]) <= 6e-8, f"{what}: eccentricity {g['ecc']} expected {x['ecc']}", "ecc")
    expect(abs(g["n"] - x["n"]) <= 2e-8, f"{what}: mean motion {g['n']} expected {x['n']}", "n")
    expect(g["ndot"] == 0 and g["nddot"] == 0 and g["bstar"] == 0, f"{what}: drag terms {g}", "drag")


def check(d):
    x = elements(d)
    if not (0 <= x["ecc"] <= 0.85 and 0 <= x["mean"] <= 360):
        raise Skip()
    o = make(d)
    t = o.to_tle()
    check_fields(o, d, t, f"{d}")
    again = o.to_tle()
    expect(again.tle == t.tle, f"{d}: second conversion differs", "again")
    for lz in (True, False):
        expect(o.to_tle(lazy_load=lz).tle == t.tle, f"{d}: conversion with lazy_load={lz} differs", "again")
    o2 = make(d)
    expect(o2.to_tle(lazy_load=False).tle == t.tle, f"{d}: fresh conversion differs", "again")
    if d["kind"] == "sso":
        expect_close(o.get_inclination(), x["incl"], f"{d}: inclination getter", 1e-9, 1e-7)
        expect(abs(angdiff(o.get_right_ascension_ascending_node(), x["raan"])) < 1e-6, f"{d}: right ascension getter {o.get_right_ascension_ascending_node()} expected {x['raan']}", "raan")
    expect_close(o.get_mean_motion(), x["n"], f"{d}: mean motion getter", 1e-8)
    expect(abs(o.get_orbit_period().total_seconds() - 86400 / x["n"]) < 1e-5, f"{d}: period getter", "period")
    expect(abs(angdiff(o.get_mean_anomaly(), x["mean"])) < 1e-7, f"{d}: mean anomaly getter", "mean")


def same(o, before):
    return [core.equal(o.fields[k], before[k]) for k in before]


def deductive(V):
    mu, R = frac_of_float(constants.EARTH_MU), frac_of_float(constants.EARTH_MEAN_RADIUS)

    def rec_of(t):
        l = t.fields["tle"]
        if not (isinstance(l, list) and len(l) == 2 and isinstance(l[0], SLine) and isinstance(l[1], SLine)):
            raise core.Unsupported("unexpected element lines")
        if l[0].k != 1 or l[1].k != 2 or l[0].rec is not l[1].rec:
            raise core.Unsupported("line order")
        return l[0].rec

    def post(v, kind, o, rec, tag=""):
        f = o.fields
        v.ensure(tag + "epoch", rec.epoch_time() == f["epoch"])
        for k in ("bstar", "ndot", "nddot"):
            v.ensure(tag + "no drag: " + k, zb(rec.vals[k] == 0))
        e = f.get("eccentricity", 0)
        if kind == "molniya":
            e = v.call(KINDS[kind].get_eccentricity, o)
        v.ensure(tag + "eccentricity", zb(rec.ecco == e))
        v.ensure(tag + "perigee argument", zb(rec.argpo == M.rad(f.get("perigee_argument", 0))))
        v.ensure(tag + "mean anomaly of the true anomaly", zb(rec.mo == M.rad(spec_t2m(f["true_anomaly"], e, M.sin, M.rad, M.deg))))
        if kind in ("molniya", "tundra"):
            v.ensure(tag + "mean motion of the orbital period", zb(rec.no_kozai * f["orbital_period"] == 120 * M.pi))
        else:
            a = R + f["altitude"]
            v.ensure(tag + "mean motion of the altitude", zb(rec.no_kozai == 60 * M.sqrt(mu / (a * a * a))))
        if kind == "sso":
            a = R + f["altitude"]
            q = a * F(1, 12352000)
            v.ensure(tag + "inclination by nodal precession", zb(M.cos(rec.inclo) == -(q * q * q * M.sqrt(q))))
            v.ensure(tag + "inclination in range", z3.And(zb(rec.inclo >= 0), zb(rec.inclo <= M.pi)))
            c = f["equator_crossing_time"]
            day = (c.hour * 3600 + c.minute * 60 + c.second + c.microsecond * F(1, 10**6)) * F(1, 86400)
            want = Num(SUN_RA(f["epoch"].e)) + 360 * day - 180 + core.ite(f["equator_crossing_ascending"].e, 0, 180)
            v.ensure(tag + "node at the crossing time", congruent(rec.nodeo * Num(core.IPI) * 180, want))
        else:
            v.ensure(tag + "inclination", zb(rec.inclo == M.rad(f["inclination"])))
            v.ensure(tag + "right ascension", zb(rec.nodeo == M.rad(f["right_ascension_ascending_node"])))

    for kind, cls in KINDS.items():
        for lz in (None, True, False):
            def body(v, kind=kind, cls=cls, lz=lz):
                o = sym_orbit(v, kind)
                if kind == "molniya":
                    e = v.call(cls.get_eccentricity, o)
                    v.assume(e >= 0)
                    v.assume(e < 1)
                before = dict(o.fields)
                t = v.call(cls.to_tle, o, lazy_load=lz)
                post(v, kind, o, rec_of(t))
                v.ensure("the orbit itself is unchanged", z3.And(*same(o, before)))
                t2 = v.call(cls.to_tle, o, lazy_load=lz)
                r1, r2 = rec_of(t), rec_of(t2)
                v.ensure("asking again returns the same element set", z3.And(*[core.equal(r1.vals[k], r2.vals[k]) for k in r1.vals]))
            V.vc(f"{cls.__name__}.to_tle(lazy_load={lz})", body, replay=lambda i, kind=kind: check(desc_of(kind, i)))

    for kind, cls in KINDS.items():
        def body_period(v, kind=kind, cls=cls):
            o = sym_orbit(v, kind)
            per = v.call(cls.get_orbit_period, o)
            T = o.fields["orbital_period"] if kind in ("molniya", "tundra") else v.call(utils.compute_orbit_period, o.fields["altitude"])
            v.ensure("the period is the orbital period, or that of the altitude", zb(per.num() == T))
        V.vc(f"{cls.__name__}.get_orbit_period", body_period, replay=lambda i, kind=kind: check(desc_of(kind, i)))

    def body_molniya(v):
        o = sym_orbit(v, "molniya")
        e = v.call(KINDS["molniya"].get_eccentricity, o)
        a = v.call(KINDS["molniya"].get_semimajor_axis, o)
        T = o.fields["orbital_period"]
        v.ensure("perigee radius is a(1-e)", zb(a * (1 - e) == o.fields["altitude"] + frac_of_float(constants.EARTH_EQUATORIAL_RADIUS)))
        lo, hi = F(39857, 10**4) * 10**14, F(39873, 10**4) * 10**14
        q = M.pi * M.pi * a * a * a * 4
        v.ensure("Kepler's third law within the constants' accuracy", z3.And(zb(q > lo * T * T), zb(q < hi * T * T)))
    V.vc("Molniya eccentricity puts perigee at the altitude", body_molniya, replay=lambda i: check(desc_of("molniya", i)))


def concrete(C):
    for k in KINDS:
        C.cases(f"element set of a {k} orbit", lambda r, k=k: gen_orbit(r, (k,)), check, 120, "random valid orbits, epochs 1967-2027, eccentricity <= 0.8", share=0.3)
