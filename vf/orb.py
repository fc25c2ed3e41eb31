"""Shared generators and symbolic objects for orbits."""
import math, random
from datetime import datetime, timedelta, timezone, time as dtime
from fractions import Fraction as F
import z3
from tatc.schemas.orbit import (TwoLineElements, CircularOrbit, SunSynchronousOrbit, KeplerianOrbit, MolniyaOrbit,
                                TundraOrbit)
from tatc import constants
from . import core
from .core import Num, SBool, Sym
from .interp import SObj, METHOD_MODELS
from .tmodel import STime, SDelta, SkyTime, stime, Satrec_, SLine, dt_secs

UTC = timezone.utc
KINDS = dict(circular=CircularOrbit, sso=SunSynchronousOrbit, keplerian=KeplerianOrbit, molniya=MolniyaOrbit, tundra=TundraOrbit)
PUB = dict(mu=3.986004418e14, a=6378137.0, b=6356752.314245, sid=86164.0905)
RMEAN = (2 * PUB["a"] + PUB["b"]) / 3


def gen_epoch(r):
    return dict(days=r.randrange(-12000, 10000), secs=r.choice([0, 86399, r.randrange(86400)]), us=r.choice([0, 0, 500000, r.randrange(10**6)]))


def epoch_of(d):
    return datetime(2000, 1, 1, tzinfo=UTC) + timedelta(days=d["days"], seconds=d["secs"], microseconds=d["us"])


def ang(r, hi=360.0):
    x = r.choice([0.0, 90.0, 180.0, r.uniform(0, 1e-6), hi - 1e-9, r.uniform(0, hi), r.uniform(0, hi), r.uniform(0, hi)])
    return x if 0 <= x < hi else 0.0


def gen_orbit(r, kinds=tuple(KINDS)):
    k = r.choice(kinds)
    d = dict(kind=k, epoch=gen_epoch(r), true_anomaly=ang(r))
    if k == "sso":
        d.update(altitude=r.choice([0.0, 5e5, 7e5, r.uniform(2e5, 5.9e6)]), ect=[r.randrange(24), r.randrange(60), r.randrange(60), r.choice([0, r.randrange(10**6)])],
                 ascending=r.random() < 0.5)
        return d
    d.update(altitude=r.choice([4e5, 35786e3, r.uniform(2e5, 2e6), r.uniform(2e6, 4e7)]), inclination=ang(r, 180.0), raan=ang(r))
    if k == "keplerian":
        d.update(eccentricity=r.choice([0.0, 0.001, r.uniform(0, 0.1), r.uniform(0, 0.8)]), argp=ang(r))
    if k in ("molniya", "tundra"):
        T = r.choice([43080.0, 86400.0, r.uniform(2e4, 9e4)])
        a = (PUB["mu"] * T * T / 4 / math.pi**2) ** (1 / 3)
        d.update(period=T, argp=ang(r), altitude=max(2e5, min(a * (1 - r.uniform(0.01, 0.8)) - PUB["a"], a * 0.98 - PUB["a"])))
    if k == "tundra":
        d.update(eccentricity=r.choice([0.2, 0.0, r.uniform(0, 0.8)]))
    return d


def make(d):
    k = dict(altitude=d["altitude"], true_anomaly=d["true_anomaly"], epoch=epoch_of(d["epoch"]))
    if d["kind"] == "sso":
        h, m, s, u = d["ect"]
        return SunSynchronousOrbit(equator_crossing_time=dtime(h, m, s, u), equator_crossing_ascending=d["ascending"], **k)
    k.update(inclination=d["inclination"], right_ascension_ascending_node=d["raan"])
    if d["kind"] in ("keplerian", "tundra"):
        k["eccentricity"] = d["eccentricity"]
    if d["kind"] != "circular":
        k["perigee_argument"] = d["argp"]
    if d["kind"] in ("molniya", "tundra"):
        k["orbital_period"] = d["period"]
    return KINDS[d["kind"]](**k)


def t2m(nu, e):
    x = math.radians(nu)
    return math.degrees(x - 2 * e * math.sin(x) + (3 * e**2 / 4 + e**4 / 8) * math.sin(2 * x) - e**3 / 3 * math.sin(3 * x) + 5 * e**4 / 32 * math.sin(4 * x))


def m2t(m, e):
    x = math.radians(m)
    return math.degrees(x + (2 * e - e**3 / 4) * math.sin(x) + 5 * e * e / 4 * math.sin(2 * x) + 13 * e**3 / 12 * math.sin(3 * x))


def sso_inclination(alt):
    return math.degrees(math.acos(-((RMEAN + alt) / 12352000.0) ** 3.5))


def sso_raan(d):
    t = constants.timescale.from_datetime(epoch_of(d["epoch"]))
    ra, _, _ = constants.de421["earth"].at(t).observe(constants.de421["sun"]).radec()
    h, m, s, u = d["ect"]
    # the ascending node of a descending crossing lies opposite; a crossing at local noon has the right ascension of the sun
    day = (h * 3600 + m * 60 + s + u / 1e6) / 86400.0
    return (ra._degrees + 360.0 * (day - 0.5) + (0.0 if d["ascending"] else 180.0)) % 360.0


def elements(d):
    """Expected elements of an orbit description (float specification)."""
    k = d["kind"]
    e = d.get("eccentricity", 0.0)
    if k == "molniya":
        a = (6.6743e-11 * 5.9736e24 * d["period"] ** 2 / 4 / math.pi**2) ** (1 / 3)
        e = (a - d["altitude"] - PUB["a"]) / a
    n = 86400.0 / d["period"] if "period" in d else 86400.0 / (2 * math.pi * math.sqrt((RMEAN + d["altitude"]) ** 3 / PUB["mu"]))
    return dict(incl=sso_inclination(d["altitude"]) if k == "sso" else d["inclination"],
                raan=sso_raan(d) if k == "sso" else d["raan"], ecc=e, argp=d.get("argp", 0.0),
                mean=t2m(d["true_anomaly"], e), n=n, epoch=epoch_of(d["epoch"]))


def tle_fields(l1, l2):
    """Independent reading of the standard columns."""
    yy, dd = int(l1[18:20]), float(l1[20:32])
    ep = datetime(2000 + yy if yy < 57 else 1900 + yy, 1, 1, tzinfo=UTC) + timedelta(days=dd - 1)
    dec = lambda s: (-1 if s[0] == "-" else 1) * float("0." + s[1:6].replace(" ", "0")) * 10.0 ** int(s[6:8])
    return dict(epoch=ep, ndot=float(l1[33:43]), nddot=dec(l1[44:52]), bstar=dec(l1[53:61]), incl=float(l2[8:16]), raan=float(l2[17:25]),
                ecc=float("0." + l2[26:33].replace(" ", "0")), argp=float(l2[34:42]), mean=float(l2[43:51]), n=float(l2[52:63]))


def checksum(line):
    return sum(int(c) if c.isdigit() else c == "-" for c in line[:68]) % 10


def tle_lines(r, epoch=None, elements=None, rich=True):
    """A valid element set with every field free."""
    f = elements or {}
    ep = epoch or epoch_of(gen_epoch(r))
    days = (ep - datetime(ep.year, 1, 1, tzinfo=UTC)) / timedelta(days=1) + 1
    cat = f.get("cat") or "%05d" % r.randrange(100000)
    sgn = lambda: r.choice([" ", "-"]) if rich else " "
    exp = lambda z: (r.choice([" ", "-"]) if rich else " ") + "%05d" % r.randrange(10000, 100000) + "-%d" % r.randrange(z, 8) if rich and r.random() < 0.85 else " 00000-0"
    ndot = (r.choice([" ", "-"]) + ".%08d" % r.randrange(100000)) if rich else " .00000000"
    desig = f.get("desig") or "%02d%03d%-3s" % (r.randrange(100), r.randrange(1000), r.choice(["A", "AB", "ABC"]))
    l1 = "1 %s%s %s %02d%012.8f %s %s %s %d %4d" % (cat, r.choice("UCS") if rich else "U", desig, ep.year % 100, days, ndot, exp(1), exp(1), r.choice([0, 0, 2]), r.randrange(10000))
    inc, raan, ecc, ap, ma, n = (f.get("incl", r.uniform(0, 180)), f.get("raan", r.uniform(0, 360)), f.get("ecc", r.uniform(0, 0.3)),
                                 f.get("argp", r.uniform(0, 360)), f.get("mean", r.uniform(0, 360)), f.get("n", r.uniform(1, 15.9)))
    l2 = "2 %s %8.4f %8.4f %07d %8.4f %8.4f %11.8f%5d" % (cat, min(inc, 179.9999), min(raan, 359.9999), int(ecc * 1e7), min(ap, 359.9999), min(ma, 359.9999), n, r.randrange(100000))
    assert len(l1) == 68 and len(l2) == 68, (l1, l2)
    return [l1 + str(checksum(l1)), l2 + str(checksum(l2))]


# ------------------------------------------------------------------ symbolic orbits
SUN_RA = z3.Function("sun_right_ascension_deg", z3.RealSort(), z3.RealSort())


class _Angle(Sym):
    def __init__(self, e):
        self._degrees = Num(e)

    @property
    def hours(self):
        return self._degrees / 15

    @property
    def radians(self):
        return self._degrees * Num(core.PI) * F(1, 180)


class _Obs(Sym):
    def __init__(self, t, who):
        self.t, self.who = t, who

    def observe(self, x):
        if x is not constants.de421["sun"] or self.who != "earth":
            raise core.Unsupported("observed body")
        return self

    def apparent(self):
        raise core.Unsupported("apparent")

    def radec(self):
        core.ctx.trust("skyfield: earth.at(t).observe(sun).radec() is the sun's right ascension at t")
        return (_Angle(SUN_RA(self.t.t.e)), _Angle(z3.RealVal(0)), _Angle(z3.RealVal(0)))


def install_sun():
    e = constants.de421["earth"]
    METHOD_MODELS[(type(e), "at")] = lambda interp, self_, args, kw: _Obs(args[0], "earth") if self_ is e and isinstance(args[0], SkyTime) else NotImplemented


class STod(Sym):
    """time of day."""

    def __init__(self, v):
        self.hour, self.minute = v.int("ect_h", ge=0, le=23), v.int("ect_m", ge=0, le=59)
        self.second, self.microsecond = v.int("ect_s", ge=0, le=59), v.int("ect_us", ge=0, lt=10**6)

    def _subst(self, p):
        return self


def sym_orbit(v, kind, **over):
    """An arbitrary valid orbit object of the class (fields constrained as the schema declares)."""
    cls = KINDS[kind]
    f = dict(altitude=v.real("altitude", gt=-6000000), true_anomaly=v.real("true_anomaly", ge=0, lt=360), epoch=stime(v, "epoch"))
    if kind == "sso":
        install_sun()
        core.assume(f["altitude"] >= 0)
        core.assume(f["altitude"] < 12352000 - core.frac_of_float(constants.EARTH_MEAN_RADIUS))
        f.update(equator_crossing_time=STod(v), equator_crossing_ascending=v.bool("ascending"))
    else:
        f.update(inclination=v.real("inclination", ge=0, lt=180), right_ascension_ascending_node=v.real("raan", ge=0, lt=360))
    if kind in ("keplerian", "tundra"):
        f["eccentricity"] = v.real("eccentricity", ge=0, lt=1)
    if kind in ("keplerian", "molniya", "tundra"):
        f["perigee_argument"] = v.real("argp", ge=0, lt=360)
    if kind in ("molniya", "tundra"):
        f["orbital_period"] = v.real("period", gt=0)
    f.update(over)
    f["type"] = kind
    names = set(cls.model_fields)
    missing = names - set(f)
    if missing:
        raise core.Unsupported(f"fields {missing} not specified")
    return SObj(cls, {k: x for k, x in f.items() if k in names})


def desc_of(kind, i):
    """Concrete orbit description from a countermodel."""
    d = dict(kind=kind, altitude=float(i.get("altitude", 5e5)), true_anomaly=float(i.get("true_anomaly", 10.0)))
    ep = float(i.get("epoch", 1.6e9))
    if not -4e8 < ep < 2.6e9:
        ep = 1.6e9 + ep % 1e8
    s = int(ep // 1) - 946684800
    d["epoch"] = dict(days=s // 86400, secs=s % 86400, us=0)
    if kind == "sso":
        d.update(altitude=min(max(d["altitude"], 0.0), 5.9e6), ect=[int(i.get("ect_h", 6)), int(i.get("ect_m", 7)), int(i.get("ect_s", 8)), int(i.get("ect_us", 0))], ascending=bool(i.get("ascending", True)))
        return d
    d.update(inclination=float(i.get("inclination", 50.0)), raan=float(i.get("raan", 20.0)), argp=float(i.get("argp", 30.0)))
    if not 2e5 <= d["altitude"] <= 1e8:
        d["altitude"] = 2e5 + abs(d["altitude"]) % 1e7
    if kind in ("keplerian", "tundra"):
        d["eccentricity"] = min(float(i.get("eccentricity", 0.1)), 0.8)
    if kind in ("molniya", "tundra"):
        d["period"] = float(i.get("period", 43080.0))
        if not 6000 <= d["period"] <= 2e5:
            d["period"] = 30000.0
        if kind == "molniya":
            a = (PUB["mu"] * d["period"] ** 2 / 4 / math.pi**2) ** (1 / 3)
            if not 0 <= 1 - (d["altitude"] + PUB["a"]) / a <= 0.8:
                d["period"], d["altitude"] = 43080.0, 5e6
    return d
