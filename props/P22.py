"""P22 observation validity."""
from datetime import datetime, timedelta, timezone
import ast, itertools, math
import numpy as np
import z3
from skyfield.api import EarthSatellite, wgs84
from skyfield.toposlib import Geoid
from vf import core, seq, orb
from vf.core import Num, Sym, SBool, Unsupported, equal, zb, zr, mkb, ctx, subst
from vf.seq import Seq
from vf.interp import SObj, METHOD_MODELS
from vf.tmodel import STime, SkyTime
from vf.session import Fail, Skip, expect
from tatc import constants
from tatc.schemas.instrument import Instrument, PointedInstrument

UTC = timezone.utc
ASSUMPTIONS = ["skyfield: is_sunlit(ephemeris) and altaz() of the observed sun are true of the positions they are given; subpoint_of is the ground point below the satellite",
               "a solar altitude of exactly zero counts as not above the horizon"]


def check(i):
    o = orb.make(i["orbit"])
    l1, l2 = o.to_tle().tle[:2]
    ts = constants.timescale
    t0 = datetime(2020, 3, 1, tzinfo=UTC) + timedelta(seconds=i["start"])
    ds = [t0 + timedelta(seconds=x) for x in i["offsets"]]
    sat = EarthSatellite(l1, l2, ts=ts)
    kw = dict(req_self_sunlit=i["self"], req_target_sunlit=i["tgt"])
    inst = PointedInstrument(cross_track_field_of_view=10, along_track_field_of_view=10, **kw) if i["pointed"] else Instrument(**kw)
    target = i["target"]
    if target is not None and i["near"] is not None:
        # a place where the sun is near the horizon at the first time
        sub = wgs84.subpoint_of((constants.de421["earth"]).at(ts.from_datetime(ds[0])).observe(constants.de421["sun"]))
        la, lo, az, c = sub.latitude.radians, sub.longitude.radians, math.radians(target[1]), math.radians(90 - i["near"])
        lat = math.asin(math.sin(la) * math.cos(c) + math.cos(la) * math.sin(c) * math.cos(az))
        lon = lo + math.atan2(math.sin(az) * math.sin(c) * math.cos(la), math.cos(c) - math.sin(la) * math.sin(lat))
        target = [math.degrees(lat), (math.degrees(lon) + 180) % 360 - 180, 0]
    tgt = None if target is None else wgs84.latlon(*target)
    single = i["shape"] == "single"
    track = sat.at(ts.from_datetime(ds[0]) if single else ts.from_datetimes(ds))
    if not np.all(np.isfinite(track.position.m)):
        raise Skip()  # decayed
    if i["shape"] == "moving":
        # the target may move with the track
        g = wgs84.subpoint_of(track)
        tgt = wgs84.latlon(g.latitude.degrees + 1.0, g.longitude.degrees)
    got = inst.is_valid_observation(track, tgt) if i["pass"] else inst.is_valid_observation(track)
    ds = ds[:1] if single else ds
    want = []
    for k, d in enumerate(ds):
        s = sat.at(ts.from_datetime(d))
        ok = True
        if i["self"] is not None:
            ok = ok and bool(s.is_sunlit(constants.de421)) == i["self"]
        if i["tgt"] is not None:
            p = tgt if tgt is not None and i["pass"] else wgs84.subpoint_of(s)
            if i["shape"] == "moving" and i["pass"]:
                p = wgs84.latlon(float(tgt.latitude.degrees[k]), float(tgt.longitude.degrees[k]))
            alt = (constants.de421["earth"] + p).at(s.t).observe(constants.de421["sun"]).apparent().altaz()[0].degrees
            if abs(alt) < 1e-6:
                raise Skip()
            ok = ok and (alt > 0) == i["tgt"]
        want.append(ok)
    what = f"{'pointed ' if i['pointed'] else ''}instrument self={i['self']} target={i['tgt']} at {[str(d) for d in ds]} target {target} ({i['shape']})"
    if len(ds) == 1:
        expect(isinstance(got, (bool, np.bool_)), f"{what}: {type(got).__name__} for one time", "shape")
        expect(bool(got) == want[0], f"{what}: {got}, expected {want[0]}", "validity")
        return
    expect(np.shape(got) == (len(ds),), f"{what}: shape {np.shape(got)}", "shape")
    expect([bool(x) for x in got] == want, f"{what}: {list(got)}, expected {want}", "validity")


def concrete(C):
    def gen(r):
        d = orb.gen_orbit(r, ("circular", "sso", "keplerian"))
        start = r.randrange(86400 * 300)
        d["epoch"]["days"] = 7365 + start // 86400  # 2020-03-01 and on
        sh = r.choice(["single", "several", "several", "moving", "one"])
        n = 1 if sh in ("single", "one") else r.choice([2, 3, 8, 20])
        return dict(near=r.choice([None, r.uniform(-1.5, 1.5), r.uniform(-20, 20)]), orbit=d, start=start, offsets=[r.randrange(86400) for _ in range(n)] if r.random() < 0.5 else [k * r.choice([60, 600]) for k in range(n)],
                    self=r.choice([None, True, False]), tgt=r.choice([None, True, False]), pointed=r.random() < 0.4, shape=sh,
                    target=None if sh == "moving" or r.random() < 0.4 else [r.uniform(-90, 90), r.uniform(-180, 180), r.choice([0, 0, 2000])], **{"pass": r.random() < 0.8})
    C.cases("validity", gen, check, 250, "1..20 times, every combination of requirements, with and without a target, satellite and sun positions by skyfield one time at a time")


# ------------------------------------------------------------------ deductive
LIT = z3.Function("satellite_sunlit", z3.RealSort(), z3.BoolSort())
ALT = z3.Function("solar_altitude", z3.RealSort(), z3.IntSort(), z3.RealSort())  # time, place
OF = z3.Function("place_below", z3.RealSort(), z3.IntSort())


def over(t, f):
    """f of a scalar time, or elementwise over times."""
    if isinstance(t.t, Seq):
        q = t.t
        return Seq(q.n, lambda j: f(q.get(j).e), True)
    return f(t.t.e)


class Track(Sym):
    def __init__(self, t):
        self.t = t

    def is_sunlit(self, eph):
        if eph is not constants.de421:
            raise Unsupported("another ephemeris")
        ctx.trust("skyfield: is_sunlit says at each time whether the satellite is sunlit")
        return over(self.t, lambda x: SBool(LIT(x)))


class Place(Sym):
    """a place: fixed (id) or below the track."""

    def __init__(self, ident=None):
        self.ident = ident

    def _rbin(self, op, o):
        if op is not ast.Add or o is not constants.de421["earth"]:
            raise Unsupported("place not on the Earth")
        return Seen(self, None, 0)

    def at(self, t):
        raise Unsupported("place alone")


class Seen(Sym):
    def __init__(self, p, t, k):
        self.p, self.t, self.k = p, t, k

    def at(self, t):
        if self.k != 0 or not isinstance(t, SkyTime):
            raise Unsupported("observer")
        return Seen(self.p, t, 1)

    def observe(self, x):
        if self.k != 1 or x is not constants.de421["sun"]:
            raise Unsupported("observed body")
        return Seen(self.p, self.t, 2)

    def apparent(self):
        if self.k != 2:
            raise Unsupported("apparent")
        return Seen(self.p, self.t, 3)

    def altaz(self):
        if self.k != 3:
            raise Unsupported("altaz")
        ctx.trust("skyfield: altaz()[0].degrees of the apparent sun is the solar altitude at the place and time")
        return (Deg(over(self.t, lambda x: Num(ALT(x, OF(x) if self.p.ident is None else self.p.ident)))), None, None)


class Deg(Sym):
    def __init__(self, d):
        self.degrees = d

    @property
    def radians(self):
        d = self.degrees
        f = lambda x: x * Num(core.PI / 180)
        return Seq(d.n, lambda j: f(d.get(j)), True) if isinstance(d, Seq) else f(d)




def deductive(V):
    for cls in (Instrument, PointedInstrument):
        for vec in (False, True, "one"):
            for given in (True, False):
                def body(v, cls=cls, vec=vec, given=given):
                    T = z3.Function("time", z3.IntSort(), z3.RealSort())
                    n = v.int("times", ge=2).e if vec is True else z3.IntVal(1)
                    t = SkyTime(Seq(n, lambda j: STime(T(j)), True)) if vec else SkyTime(STime(T(z3.IntVal(0))))
                    METHOD_MODELS[(Geoid, "subpoint_of")] = METHOD_MODELS[(Geoid, "subpoint")] = lambda interp, s, a, k: Place() if a[0] is trk else NotImplemented
                    trk = Track(t)
                    place = z3.Int("place")
                    rs, rt = v.bool("req_self"), v.bool("req_target")
                    j = z3.Int("j")
                    v.assume(z3.And(j >= 0, j < n))
                    for a, b in itertools.product((None, rs), (None, rt)):
                        f = {k: x.default for k, x in Instrument.model_fields.items()}
                        f.update(req_self_sunlit=a, req_target_sunlit=b)
                        o = SObj(cls, f)
                        r = v.call(cls.is_valid_observation, o, trk, *([Place(place)] if given else []))
                        x = T(j)
                        alt = ALT(x, place if given else OF(x))
                        want = z3.And(z3.BoolVal(True) if a is None else LIT(x) == rs.e, z3.BoolVal(True) if b is None else (alt > 0) == rt.e)
                        nm = f"self {'any' if a is None else 'required'}, target {'any' if b is None else 'required'}"
                        if vec is True:
                            if not isinstance(r, Seq):
                                v.ensure(f"{nm}: one value per time", z3.BoolVal(False))
                                continue
                            v.ensure(f"{nm}: one value per time", r.n == n)
                            v.ensure(f"{nm}: valid exactly when each requirement set holds", zb(r.get(j)) == want)
                        else:
                            if isinstance(r, Seq):
                                v.ensure(f"{nm}: a single truth value for one time", z3.BoolVal(False))
                                continue
                            v.ensure(f"{nm}: valid exactly when each requirement set holds", z3.substitute(zb(r) == want, (j, z3.IntVal(0))))
                V.vc(f"{cls.__name__}.is_valid_observation, {'several times' if vec is True else 'one time' if not vec else 'a list of one time'}, {'target given' if given else 'below the satellite'}", body)
