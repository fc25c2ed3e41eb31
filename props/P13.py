"""P13 observation and downlink collection."""
import math
from datetime import datetime, timedelta, timezone
import numpy as np
import pandas as pd
import z3
from shapely import geometry as geo
from vf.session import Fail, Skip, expect, expect_close
from vf import core, seq, tmodel
from vf.core import Num, SBool, Sym, zb, mkb, equal, Unsupported, ctx, SymRaise
from vf.seq import Seq, FSeq, CatSeq, FlatSeq, zi
from vf.tmodel import STime, SDelta, SkyTime, stime, sdelta
from vf.pmodel import SInterval, SFrame
from vf.interp import SObj, CONTRACTS, METHOD_MODELS, MODELS
from vf.orb import tle_lines, TwoLineElements, UTC
from tatc.schemas import Point, GroundStation, Satellite, Instrument, PointedInstrument, TrainConstellation
from tatc import constants, utils
from tatc.analysis import coverage, latency
from skyfield.api import EarthSatellite, wgs84
from props.P12 import events_of, expected

ASSUMPTIONS = ["visible intervals as proved under P12; validity as under P22; footprints as under P21 (their contracts are used here)",
               "geopandas/pandas: building a table from records, concat, sort_values and reset_index"]


# ------------------------------------------------------------------ concrete oracle
class world:
    """controlled event lists per (element set, target), and controlled validity."""

    def __init__(self, events, valid):
        self.events, self.valid = events, valid
        self.searches, self.asked = [], []

    def __enter__(self):
        self.o1, self.o2 = TwoLineElements.get_observation_events, Instrument.is_valid_observation

        def ev(s, point, start, end, min_elevation_angle, *a, **k):
            self.searches.append((s.tle[0], point, start, end, min_elevation_angle))
            L = self.events(s.tle[0], point)
            if not L:
                return constants.timescale.utc(2020, 1, 1, 0, 0, np.array([])), np.array([], dtype=int)
            return constants.timescale.from_datetimes([t for t, _ in L]), np.array([k for _, k in L])

        def va(s, orbit_track, target=None):
            self.asked.append((s.name, orbit_track.t.utc_datetime(), target))
            v = self.valid(s.name, orbit_track.t.utc_datetime())
            return np.array([v]) if np.ndim(orbit_track.t.tt) else v
        TwoLineElements.get_observation_events = ev
        Instrument.is_valid_observation = va
        return self

    def __exit__(self, *a):
        TwoLineElements.get_observation_events, Instrument.is_valid_observation = self.o1, self.o2


def passes_events(start, P):
    out = []
    for a, b in P:
        out += [(start + timedelta(seconds=a), 0), (start + timedelta(seconds=(a + b) / 2), 1), (start + timedelta(seconds=b), 2)]
    return out


def instruments(i):
    out = []
    for k, d in enumerate(i["inst"]):
        kw = dict(name=f"inst{k}", field_of_regard=d["for"], min_access_time=timedelta(seconds=d["mat"]), access_time_fixed=d["fixed"])
        if d["pointed"]:
            kw.pop("field_of_regard")
            out.append(PointedInstrument(cross_track_field_of_view=d["xfov"], along_track_field_of_view=d["yfov"], roll_angle=d["roll"], pitch_angle=d["pitch"], is_rectangular=d["rect"], **kw))
        else:
            out.append(Instrument(**kw))
    return out


def near(a, b, ms=2.0):
    return abs((pd.Timestamp(a).to_pydatetime() - b).total_seconds()) * 1000 < ms


def observations_spec(i, w, pt, sat, idx, start, passes, lines):
    """expected records (start, end, epoch) of one satellite and instrument."""
    ins = sat.instruments[idx]
    es = EarthSatellite(*lines)
    out = []
    for a, b in passes:
        t0, t1 = start + timedelta(seconds=a), start + timedelta(seconds=b)
        if abs((t1 - t0) - ins.min_access_time) < timedelta(milliseconds=3):
            raise Skip()
        if t1 - t0 < ins.min_access_time:
            continue
        mid = t0 + (t1 - t0) / 2
        if not w.valid(ins.name, mid):
            continue
        if isinstance(ins, PointedInstrument):
            tr = sat.orbit.to_tle().get_orbit_track(mid)
            f = utils.compute_footprint(orbit_track=tr, cross_track_field_of_view=ins.cross_track_field_of_view, along_track_field_of_view=ins.along_track_field_of_view, roll_angle=ins.roll_angle,
                                        pitch_angle=ins.pitch_angle, is_rectangular=ins.is_rectangular, elevation=pt.elevation)
            p = geo.Point(pt.longitude, pt.latitude)
            if f.boundary.distance(p) < 0.002:
                raise Skip()
            if not f.contains(p):
                continue
        h = ins.min_access_time / 2
        out.append((mid - h, mid + h, mid) if ins.access_time_fixed else (t0, t1, mid))
    return out


def check_obs(i):
    sets = i["sets"]
    orbits = [TwoLineElements(tle=list(l)) for l in sets]
    start = orbits[0].get_epoch().replace(microsecond=0) + timedelta(seconds=i["start"])
    end = start + timedelta(seconds=i["span"])
    ins = instruments(i)
    # the target lies near the ground point under the first satellite at the middle of its first pass
    if i["passes"][0]:
        a, b = i["passes"][0][0]
        sp = wgs84.subpoint_of(EarthSatellite(*sets[0]).at(constants.timescale.from_datetime(start + timedelta(seconds=(a + b) / 2))))
        lat, lon = max(-89.0, min(89.0, sp.latitude.degrees + i["dlat"])), (sp.longitude.degrees + i["dlon"] + 180) % 360 - 180
    else:
        lat, lon = i["dlat"], i["dlon"]
    if i.get("aim"):
        # the target lies at a given place relative to the footprint of the first instrument at the middle of that pass
        a, b = i["passes"][0][0]
        f = utils.compute_footprint(orbit_track=orbits[0].get_orbit_track(start + timedelta(seconds=(a + b) / 2)), cross_track_field_of_view=ins[0].cross_track_field_of_view, along_track_field_of_view=ins[0].along_track_field_of_view,
                                    roll_angle=ins[0].roll_angle, pitch_angle=ins[0].pitch_angle, is_rectangular=ins[0].is_rectangular, elevation=i["h"])
        if f.geom_type != "Polygon":
            raise Skip()
        x0, y0, x1, y1 = f.bounds
        lat, lon = f.centroid.y + i["aim"][0] * (y1 - y0) / 2, f.centroid.x + i["aim"][1] * (x1 - x0) / 2
        if abs(lat) > 85 or abs(lon) >= 180:
            raise Skip()
    pt = Point(id=i["pid"], latitude=lat, longitude=lon, elevation=i["h"])
    sats = [Satellite(name=f"sat{k}", orbit=o, instruments=[x.model_copy(deep=True) for x in ins]) for k, o in enumerate(orbits)]
    by = {l[0]: P for l, P in zip(sets, i["passes"])}
    bad = set(i["invalid"])

    def valid(name, t):
        return not any(name == n and abs((start + timedelta(seconds=s) - t).total_seconds()) < 0.5 for n, s in bad)
    w = world(lambda line, p: passes_events(start, by[line]), valid)
    cols = ["point_id", "geometry", "satellite", "instrument", "start", "end", "epoch", "sat_alt", "sat_az"]
    with w:
        got = [(s, k, coverage.collect_observations(pt, s, start, end, instrument_index=k, omit_solar=i["nosun"])) for s in sats for k in range(len(ins))]
        multi = coverage.collect_multi_observations(pt, sats if len(sats) > 1 or i["aslist"] else sats[0], start, end, omit_solar=i["nosun"])
    for _, p, a, b, el in w.searches:
        expect(p == pt and a == start and b == end, "searched another target or period", "search")
    allexp = []
    for s, k, g in got:
        lines = s.orbit.tle
        alt = wgs84.geographic_position_of(s.orbit.to_tle().get_orbit_track(start)).elevation.m
        want_el = utils.compute_min_elevation_angle(alt, ins[k].field_of_regard)
        expect(any(l == lines[0] and abs(el - want_el) < 1e-6 for l, *_, el in w.searches), f"no search at elevation {want_el} for {s.name} {ins[k].name}", "elevation")
        exp = observations_spec(i, w, pt, s, k, start, by[lines[0]], lines)
        what = f"{s.name} {ins[k].name} passes {by[lines[0]]} (minimum {ins[k].min_access_time}, fixed {ins[k].access_time_fixed}, {type(ins[k]).__name__}, invalid {i['invalid']})"
        expect(len(g) == len(exp), f"{what}: {len(g)} observations, expected {len(exp)}", "count")
        expect(all(c in g.columns for c in cols), f"{what}: columns {list(g.columns)}", "columns")
        if not i["nosun"]:
            expect(all(c in g.columns for c in ("sat_sunlit", "solar_alt", "solar_az", "solar_time")), f"{what}: columns {list(g.columns)}", "columns")
        topos = wgs84.latlon(lat, lon, i["h"])
        for (_, r), (a, b, m) in zip(g.iterrows(), exp):
            expect(near(r.start, a) and near(r.end, b) and near(r.epoch, m), f"{what}: record {r.start}..{r.end} at {r.epoch}, expected {a}..{b} at {m}", "times")
            expect(r.point_id == i["pid"] and r.satellite == s.name and r.instrument == ins[k].name, f"{what}: labels {r.point_id} {r.satellite} {r.instrument}", "labels")
            q = r.geometry
            expect(abs(q.x - lon) < 1e-9 and abs(q.y - lat) < 1e-9 and abs(q.z - i["h"]) < 1e-6, f"{what}: located at {q}", "location")
            ts = constants.timescale.from_datetime(m)
            alt, az, _ = (EarthSatellite(*lines) - topos).at(ts).altaz()
            expect(abs(r.sat_alt - alt.degrees) < 0.02 and (abs((r.sat_az - az.degrees + 180) % 360 - 180) < 0.02 / max(1e-3, math.cos(alt.radians))), f"{what}: direction {r.sat_alt} {r.sat_az}, expected {alt.degrees} {az.degrees}", "direction")
            if not i["nosun"]:
                sa = (constants.de421["earth"] + topos).at(ts).observe(constants.de421["sun"]).apparent()
                x, y, _ = sa.altaz()
                expect(abs(r.solar_alt - x.degrees) < 0.01 and abs((r.solar_az - y.degrees + 180) % 360 - 180) < 0.05 / max(1e-2, math.cos(x.radians)), f"{what}: sun {r.solar_alt} {r.solar_az}, expected {x.degrees} {y.degrees}", "sun")
                expect(abs((r.solar_time - (sa.hadec()[0].hours + 12) + 12) % 24 - 12) < 0.01 and bool(r.sat_sunlit) == bool(EarthSatellite(*lines).at(ts).is_sunlit(constants.de421)), f"{what}: solar time or sunlit", "sun")
        allexp += [(a, b, s.name, ins[k].name) for a, b, m in exp]
    for name, t, tgt in w.asked:
        expect(tgt is not None and abs(tgt.latitude.degrees - lat) < 1e-6 and abs(tgt.longitude.degrees - lon) < 1e-6 and abs(tgt.elevation.m - i["h"]) < 1e-3, f"validity asked for another target {tgt}", "target")
    expect(len(multi) == len(allexp), f"collection of all: {len(multi)} rows, expected {len(allexp)}", "union")
    st = [r.start for _, r in multi.iterrows()]
    expect(all(a <= b for a, b in zip(st, st[1:])), "collection of all: not in start order", "order")
    expect(list(multi.index) == list(range(len(multi))), "collection of all: row labels", "index")
    rest = list(allexp)
    for _, r in multi.iterrows():
        m = [x for x in rest if x[2] == r.satellite and x[3] == r.instrument and near(r.start, x[0]) and near(r.end, x[1])]
        expect(m, f"collection of all: unexpected row {r.satellite} {r.instrument} {r.start}", "union")
        rest.remove(m[0])


def check_down(i):
    sets = i["sets"]
    o = TwoLineElements(tle=list(sets[0]))
    start = o.get_epoch().replace(microsecond=0) + timedelta(seconds=i["start"])
    end = start + timedelta(seconds=i["span"])
    sts = [GroundStation(name=f"g{k}", latitude=10.0 * k, longitude=-170.0 + 100 * k, elevation=50.0 * k, min_elevation_angle=d["el"], min_access_time=timedelta(seconds=d["mat"])) for k, d in enumerate(i["stations"])]
    by = {s.name: P for s, P in zip(sts, i["passes"])}
    s = Satellite(name="sat", orbit=o, instruments=[Instrument(name="i")])
    w = world(lambda line, p: passes_events(start, by[p.name]), lambda *a: True)
    with w:
        g = latency.collect_downlinks(sts if len(sts) > 1 or i["aslist"] else sts[0], s, start, end)
    exp = []
    for st in sts:
        for a, b in by[st.name]:
            if abs(timedelta(seconds=b - a) - st.min_access_time) < timedelta(milliseconds=3):
                raise Skip()
            if timedelta(seconds=b - a) >= st.min_access_time:
                exp.append((start + timedelta(seconds=a), start + timedelta(seconds=b), st))
    for _, p, a, b, el in w.searches:
        expect(a == start and b == end and el == p.min_elevation_angle, f"station {p.name} searched at elevation {el} over {a}..{b}", "search")
    expect(len(g) == len(exp), f"{len(g)} downlinks, expected {len(exp)} ({i})", "count")
    for c in ("station", "geometry", "satellite", "start", "end", "epoch"):
        expect(c in g.columns, f"no column {c}", "columns")
    rows = [r for _, r in g.iterrows()]
    expect(all(a.start <= b.start for a, b in zip(rows, rows[1:])) and list(g.index) == list(range(len(g))), "not in start order", "order")
    rest = list(exp)
    for r in rows:
        m = [x for x in rest if x[2].name == r.station and near(r.start, x[0]) and near(r.end, x[1])]
        expect(m and near(r.epoch, m[0][0] + (m[0][1] - m[0][0]) / 2) and r.satellite == "sat", f"unexpected downlink {r.station} {r.start}..{r.end} {r.epoch}", "row")
        q, st = r.geometry, m[0][2]
        expect(abs(q.x - st.longitude) < 1e-9 and abs(q.y - st.latitude) < 1e-9 and abs(q.z - st.elevation) < 1e-6, f"station located at {q}", "location")
        rest.remove(m[0])


def check_exact(i):
    """a pass exactly as long as the required access time counts, one shorter by a microsecond does not."""
    o = TwoLineElements(tle=list(i["sets"][0]))
    start = o.get_epoch().replace(microsecond=0) + timedelta(seconds=i["start"])
    end = start + timedelta(seconds=i["span"])
    w = world(lambda line, p: passes_events(start, i["passes"]), lambda *a: True)

    def run(m):
        if i["down"]:
            return latency.collect_downlinks(GroundStation(name="g", latitude=10.0, longitude=20.0, min_access_time=m), Satellite(name="s", orbit=o, instruments=[Instrument(name="i")]), start, end)
        return coverage.collect_observations(Point(id=1, latitude=10.0, longitude=20.0), Satellite(name="s", orbit=o, instruments=[Instrument(name="i", min_access_time=m)]), start, end)
    with w:
        d = sorted(r.end - r.start for _, r in run(timedelta(0)).iterrows())
        expect(len(d) == len(i["passes"]), f"{len(d)} records of {len(i['passes'])} passes", "count")
        for x in d:
            for us in (-1, 0, 1):
                m = x.to_pytimedelta() + timedelta(microseconds=us)
                n = len(run(m))
                want = len([y for y in d if y >= pd.Timedelta(m)])
                expect(n == want, f"passes of length {[str(y) for y in d]}, required access {m}: {n} records, expected {want}", "exact")


def check_none(i):
    e = datetime(2022, 6, 1, tzinfo=UTC)
    g = coverage.collect_multi_observations(Point(id=0, latitude=i["lat"], longitude=0), [], e, e + timedelta(hours=1), i["nosun"])
    expect(len(g) == 0 and all(c in g.columns for c in ["point_id", "geometry", "satellite", "instrument", "start", "end", "epoch", "sat_alt", "sat_az"] + ([] if i["nosun"] else ["solar_alt"])), "no satellites: not the empty table", "empty")


def gen_passes(r, n=None):
    out, t = [], r.uniform(10, 2000)
    for _ in range(r.choice([0, 1, 2, 3, 5]) if n is None else n):
        d = r.choice([5.0, 30.0, 60.0, 61.0, 120.0, r.uniform(10, 300)])
        out.append([round(t, 3), round(t + d, 3)])
        t += d + r.choice([0.5, 50, r.uniform(100, 6000)])
    return out


def access(r, passes, choices):
    """a minimum access time: round, near a pass length (by less than a second), or beyond a day"""
    d = [b - a for P in passes for a, b in P]
    if d and r.random() < 0.4:
        return round(max(0.0, r.choice(d) + r.choice([-0.7, -0.3, 0.3, 0.7])), 3)
    return r.choice(choices + [86400.0])


def leo(r, k):
    return tle_lines(r, datetime(2022, 1, 1, tzinfo=UTC) + timedelta(seconds=r.randrange(10**7)) if k is None else k, dict(cat="%05d" % r.randrange(10000, 90000), incl=r.uniform(30, 120), ecc=0.001, n=r.uniform(13.5, 15.2)), rich=False)


def concrete(C):
    C.cases("no satellites", lambda r: dict(lat=r.uniform(-80, 80), nosun=r.random() < 0.5), check_none, 5, "an empty list of satellites", share=0.1)

    def go(r):
        ep = datetime(2022, 1, 1, tzinfo=UTC) + timedelta(seconds=r.randrange(10**7))
        n = r.choice([1, 1, 2, 3])
        passes = [gen_passes(r) for _ in range(n)]
        inst = [dict(pointed=r.random() < 0.4, mat=access(r, passes, [0.0, 10.0, 60.0, 100.0]), fixed=r.random() < 0.4, xfov=r.uniform(5, 80), yfov=r.uniform(5, 80), roll=r.choice([0.0, r.uniform(-20, 20)]),
                     pitch=r.choice([0.0, r.uniform(-15, 15)]), rect=r.random() < 0.5, **{"for": r.uniform(10, 110)}) for _ in range(r.choice([1, 1, 2, 2, 5]))]
        inv = [(f"inst{r.randrange(len(inst))}", (a + b) / 2) for P in passes for a, b in P if r.random() < 0.3]
        return dict(sets=[leo(r, ep) for _ in range(n)], start=r.randrange(86400), span=86400.0, passes=passes, inst=inst, invalid=inv, dlat=r.choice([0.0, r.uniform(-3, 3), r.uniform(-8, 8)]), dlon=r.choice([0.0, r.uniform(-3, 3), r.uniform(-8, 8)]),
                    h=r.choice([0.0, 2000.0]), pid=r.randrange(1000), nosun=r.random() < 0.6, aslist=r.random() < 0.5)
    C.cases("observations", go, check_obs, 220, "1..3 satellites, 1..5 instruments (conical, pointed), 0..5 passes each, controlled validity", share=0.6)

    def ga(r):
        ep = datetime(2022, 1, 1, tzinfo=UTC) + timedelta(seconds=r.randrange(10**7))
        inst = [dict(pointed=True, mat=0.0, fixed=r.random() < 0.4, xfov=r.uniform(0.7, 3), yfov=r.uniform(0.7, 3), roll=r.choice([-1, 1]) * r.uniform(25, 45), pitch=r.uniform(-25, 25), rect=r.random() < 0.5, **{"for": 60.0})]
        return dict(sets=[leo(r, ep)], start=r.randrange(86400), span=86400.0, passes=[gen_passes(r, 1)], inst=inst, invalid=[], dlat=0.0, dlon=0.0, aim=[r.choice([r.uniform(-1.3, 1.3), 0.8, -0.8]), r.uniform(-1.3, 1.3)],
                    h=r.choice([0.0, 4000.0, 8500.0, 8500.0]), pid=r.randrange(1000), nosun=True, aslist=True)
    C.cases("narrow instruments, elevated targets", ga, check_obs, 60, "a pointed instrument of 0.7..3 deg at 25..45 deg off nadir, targets up to 8.5 km high in and around its footprint", share=0.3)

    def ge(r):
        return dict(sets=[leo(r, None)], start=r.randrange(86400), span=86400.0, passes=gen_passes(r, r.choice([1, 2, 3])), down=r.random() < 0.5)
    C.cases("exact access time", ge, check_exact, 30, "1..3 passes, the required access time a microsecond around the length of each", share=0.3)

    def gd(r):
        n = r.choice([1, 2, 3])
        passes = [gen_passes(r) for _ in range(n)]
        return dict(sets=[leo(r, None)], start=r.randrange(86400), span=86400.0, stations=[dict(el=r.choice([0.0, 5.0, 20.0]), mat=access(r, passes, [0.0, 30.0, 100.0])) for _ in range(n)], passes=passes, aslist=r.random() < 0.5)
    C.cases("downlinks", gd, check_down, 200, "1..3 stations, 0..5 passes each", share=0.8)


# ------------------------------------------------------------------ deductive
class Track(Sym):
    def __init__(self, t):
        self.t_ = t

    def _subst(self, p):
        return Track(core.subst(self.t_, p))

    def __sub__(self, o):
        return Diff(self, o)

    def is_sunlit(self, eph):
        return Opaque("sunlit", self.t_)


class Opaque(Sym):
    """a column computed by skyfield at the record epochs."""

    def __init__(self, what, *a):
        self.what, self.a = what, a

    def _subst(self, p):
        return Opaque(self.what, *[core.subst(x, p) for x in self.a])

    def __getattr__(self, n):
        if n.startswith("_") or n in ("what", "a"):
            raise AttributeError(n)
        return Opaque(self.what + "." + n, *self.a)

    def __add__(self, o):
        return Opaque(self.what + "+" + str(o), *self.a)


class Diff(Sym):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def _subst(self, p):
        return self

    def altaz(self):
        ctx.trust("skyfield: altitude and azimuth of the satellite from the target")
        return (Opaque("alt", self.a, self.b), Opaque("az", self.a, self.b), Opaque("dist", self.a, self.b))


class Tle(Sym):
    def to_tle(self):
        return self

    def get_orbit_track(self, t, *a, **k):
        if a or k:
            raise Unsupported("orbit track options")
        return Track(t)

    def _subst(self, p):
        return self


class Shape(Sym):
    def __init__(self, t, args):
        self.t, self.args = t, args

    def _subst(self, p):
        return Shape(core.subst(self.t, p), self.args)

    def contains(self, q):
        if not isinstance(q, GPoint):
            raise Unsupported("contains")
        return mkb(INSIDE(self.t.e, core.zr(q.c[0]), core.zr(q.c[1])))


class GPoint(Sym):
    def __init__(self, *c):
        self.c = c

    def _subst(self, p):
        return GPoint(*[core.subst(x, p) for x in self.c])

    def _equal(self, o):
        return z3.And(*[equal(a, b) for a, b in zip(self.c, o.c)]) if isinstance(o, GPoint) and len(o.c) == len(self.c) else z3.BoolVal(False)


MODELS[geo.Point] = lambda interp, args, kw: GPoint(*args) if any(isinstance(x, Sym) for x in args) else NotImplemented
VALID = z3.Function("valid_at", z3.RealSort(), z3.BoolSort())
INSIDE = z3.Function("footprint_contains", z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.BoolSort())


def deductive(V):
    def intervals(v, check):
        n = v.int("passes", ge=0).e
        L, R = z3.Function("rise", z3.IntSort(), z3.RealSort()), z3.Function("set", z3.IntSort(), z3.RealSort())
        i = seq.gvar("i")
        v.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), L(i) < R(i)), patterns=[L(i)]))

        def f(interp, a, k):
            check(a, k)
            return Seq(n, lambda j: SInterval(STime(L(j)), STime(R(j))))
        CONTRACTS["tatc.analysis.coverage._get_visible_interval_series"] = f
        return n, L, R

    for pointed in (False, True):
        for fixed in (False, True):
            def body(v, pointed=pointed, fixed=fixed):
                start, end = stime(v, "start"), stime(v, "end")
                lat, lon, h = v.real("lat"), v.real("lon"), v.real("h")
                pt = SObj(Point, dict(id=v.int("pid"), latitude=lat, longitude=lon, elevation=h))
                cls = PointedInstrument if pointed else Instrument
                mat = sdelta(v, "min_access", ge=0)
                ins = dict(name="inst", field_of_regard=v.real("for"), min_access_time=mat, access_time_fixed=fixed, req_self_sunlit=None, req_target_sunlit=None)
                fov = dict(cross_track_field_of_view=v.real("xfov"), along_track_field_of_view=v.real("yfov"), roll_angle=v.real("roll"), pitch_angle=v.real("pitch"), is_rectangular=v.bool("rect")) if pointed else {}
                ins = SObj(cls, {**{k: None for k in cls.model_fields}, **ins, **fov})
                tle = Tle()
                sat = SObj(Satellite, dict(name="sat", orbit=tle, instruments=[None, ins, None], type="satellite"))
                el = v.real("el")

                def chk(a, k):
                    d = dict(zip(("point", "satellite", "min_elevation_angle", "start", "end"), a))
                    d.update(k)
                    core.oblig("intervals of this target and satellite at the instrument's minimum elevation", z3.And(z3.BoolVal(d["point"] is pt and d["satellite"] is sat), equal(d["min_elevation_angle"], el), equal(d["start"], start), equal(d["end"], end)))
                n, L, R = intervals(v, chk)
                METHOD_MODELS[(type(wgs84), "geographic_position_of")] = lambda interp, self_, args, kw: Alt(args[0])
                METHOD_MODELS[(type(wgs84), "latlon")] = lambda interp, self_, args, kw: Topos(*args)

                def minel(interp, a, k):
                    if k:
                        raise Unsupported("keywords")
                    core.oblig("minimum elevation for the field of regard at the initial altitude", z3.And(z3.BoolVal(isinstance(a[0], AltVal)), equal(a[0].t, start) if isinstance(a[0], AltVal) else z3.BoolVal(False), equal(a[1], ins.fields["field_of_regard"])))
                    return el
                CONTRACTS["tatc.utils.compute_min_elevation_angle"] = minel

                def valid(interp, a, k):
                    d = dict(zip(("self", "orbit_track", "target"), a))
                    d.update(k)
                    t = d.get("target")
                    core.oblig("validity of the actual target", z3.And(z3.BoolVal(isinstance(t, Topos)), *[equal(x, y) for x, y in zip(t.c, (lat, lon, h))]) if isinstance(t, Topos) else z3.BoolVal(False))
                    return mkb(VALID(d["orbit_track"].t_.e))
                CONTRACTS["tatc.schemas.instrument.Instrument.is_valid_observation"] = valid

                def foot(interp, a, k):
                    if a:
                        raise Unsupported("positional")
                    for key, val in dict(fov, elevation=h).items():
                        core.oblig(f"footprint {key}", equal(k[key], val) if key in k else z3.BoolVal(False))
                    return Shape(k["orbit_track"].t_, k)
                CONTRACTS["tatc.utils.compute_footprint"] = foot
                g = v.resolve(v.call(coverage.collect_observations, pt, sat, start, end, 1, True))
                j = z3.Int("j")
                v.assume(z3.And(j >= 0, j < n))
                mid = (L(j) + R(j)) / 2
                keep = z3.And(R(j) - L(j) >= mat.e, VALID(mid), INSIDE(mid, lon.e, lat.e) if pointed else z3.BoolVal(True))
                if not isinstance(g, SFrame):
                    v.ensure("an empty table only if no interval meets the requirements", z3.Not(keep))
                    return
                rows = g.rows
                if not isinstance(rows, FSeq) or not z3.simplify(rows.base_n).eq(n):
                    raise Unsupported("rows of another shape")
                v.ensure("a record exactly for the intervals meeting the requirements", zb(rows.cond(j)) == keep)
                r = rows.value(j)
                v.ensure("labels", z3.And(equal(r["point_id"], pt.fields["id"]), z3.BoolVal(r["satellite"] == "sat" and r["instrument"] == "inst"), equal(r["geometry"], GPoint(lon, lat, h))))
                v.ensure("epoch is the middle", equal(r["epoch"], STime(mid)))
                v.ensure("start", equal(r["start"], STime(mid - mat.e / 2 if fixed else L(j))))
                v.ensure("end", equal(r["end"], STime(mid + mat.e / 2 if fixed else R(j))))
                ok = all(isinstance(g.cols.get(c), Opaque) and g.cols[c].what == w for c, w in (("sat_alt", "alt.degrees"), ("sat_az", "az.degrees")))
                v.ensure("direction columns", z3.BoolVal(ok))
                k = z3.Int("k")
                tt = g.cols["sat_alt"].a[0].t_
                v.assume(z3.And(k >= 0, k < rows.n))
                v.ensure("directions at the record epochs", equal(tt.get(k), rows.get(k)["epoch"]))
            V.vc(f"collect_observations, {'pointed' if pointed else 'nadir'} instrument{', fixed access time' if fixed else ''}", body)

    def body_down(v, many):
        start, end = stime(v, "start"), stime(v, "end")
        I, Rl = z3.IntSort(), z3.RealSort()
        N = z3.Function("n_passes", I, I)
        L, R = z3.Function("rise_of", I, I, Rl), z3.Function("set_of", I, I, Rl)
        EL, MA, LAT, LON, H = [z3.Function(x, I, Rl) for x in ("st_el", "st_access", "st_lat", "st_lon", "st_h")]
        NAME = z3.Function("st_name", I, I)
        i, j = seq.gvar("i"), seq.gvar("j")
        v.assume(z3.ForAll([i], N(i) >= 0, patterns=[N(i)]))
        v.assume(z3.ForAll([i, j], L(i, j) < R(i, j), patterns=[L(i, j)]))
        station = lambda k: SObj(GroundStation, dict(name=Num(NAME(k)), latitude=Num(LAT(k)), longitude=Num(LON(k)), elevation=Num(H(k)), min_elevation_angle=Num(EL(k)), min_access_time=SDelta(MA(k))))
        sat = SObj(Satellite, dict(name="sat", orbit=Tle(), instruments=[], type="satellite"))
        m = v.int("stations", ge=1).e

        def f(interp, a, k):
            d = dict(zip(("point", "satellite", "min_elevation_angle", "start", "end"), a))
            d.update(k)
            s = d["point"]
            x = z3.simplify(s.fields["name"].e).arg(0)
            core.oblig("intervals of this station and satellite at the station's minimum elevation", z3.And(z3.BoolVal(d["satellite"] is sat), equal(d["min_elevation_angle"], Num(EL(x))), equal(d["start"], start), equal(d["end"], end), equal(s.fields["latitude"], Num(LAT(x)))))
            return Seq(N(x), lambda q: SInterval(STime(L(x, q)), STime(R(x, q))))
        CONTRACTS["tatc.analysis.coverage._get_visible_interval_series"] = f
        arg = Seq(m, station) if many else station(z3.IntVal(0))
        g = v.resolve(v.call(latency.collect_downlinks, arg, sat, start, end))
        s, q = z3.Ints("s q")
        if not many:
            s = z3.IntVal(0)
        v.assume(z3.And(s >= 0, s < m, q >= 0, q < N(s)))
        keep = R(s, q) - L(s, q) >= MA(s)
        if not isinstance(g, SFrame):
            v.ensure("an empty table only if no contact is long enough", z3.Not(keep), hints=v.instances(s, (s, q)))
            return
        v.ensure("sorted by start", z3.BoolVal(g.order == "start"))
        rows = g.rows
        if many:
            if not isinstance(rows, FlatSeq):
                raise Unsupported("rows of another shape")
            v.ensure("every station in order", rows.outer_n == m)
            inner = rows.inner(s)
        else:
            inner = rows
        if not isinstance(inner, FSeq) or not z3.simplify(inner.base_n == N(s)).eq(z3.BoolVal(True)):
            raise Unsupported(f"rows of another shape {type(inner)}")
        v.ensure("a downlink exactly for the intervals long enough", zb(inner.cond(q)) == keep)
        r = inner.value(q)
        v.ensure("station, satellite and place", z3.And(equal(r["station"], Num(NAME(s))), z3.BoolVal(r["satellite"] == "sat"), equal(r["geometry"], GPoint(Num(LON(s)), Num(LAT(s)), Num(H(s))))))
        v.ensure("start, end and middle", z3.And(equal(r["start"], STime(L(s, q))), equal(r["end"], STime(R(s, q))), equal(r["epoch"], STime((L(s, q) + R(s, q)) / 2))))
    V.vc("collect_downlinks, one station", lambda v: body_down(v, False))
    V.vc("collect_downlinks, list of stations", lambda v: body_down(v, True))

    # collect_multi_observations: every member and instrument of every listed satellite, once, in order of start
    MODELS[pd.concat] = concat_frames

    def body_multi(v, listed):
        start, end = stime(v, "start"), stime(v, "end")
        omit = v.bool("omit_solar")
        I = z3.IntSort()
        NM, NI, NR = z3.Function("n_members", I, I), z3.Function("n_instruments", I, I, I), z3.Function("n_records", I, I, I, I)
        a, b, c = [seq.gvar(x) for x in "abc"]
        v.assume(z3.ForAll([a], NM(a) >= 1, patterns=[NM(a)]))
        v.assume(z3.ForAll([a, b], NI(a, b) >= 1, patterns=[NI(a, b)]))
        v.assume(z3.ForAll([a, b, c], NR(a, b, c) >= 0, patterns=[NR(a, b, c)]))
        m = v.int("satellites", ge=0).e if listed else z3.IntVal(1)
        member = lambda i, j: SObj(Satellite, dict(name=Who(i, j), orbit=Tle(), instruments=Seq(NI(i, j), lambda k: Who(i, j, k)), type="satellite"))
        constellation = lambda i: Listed(i, NM(i), member)
        pt = SObj(Point, dict(id=v.int("pid")))
        empty = []
        CONTRACTS["tatc.analysis.coverage._get_empty_coverage_frame"] = lambda interp, x, k: (core.oblig("the empty table has the asked columns", equal((list(x) + list(k.values()))[0], omit)), empty.append(1), SFrame([], None, "start"))[-1]

        def one(interp, x, k):
            d = dict(zip(("point", "satellite", "start", "end", "instrument_index", "omit_solar"), x))
            d.update(k)
            w = d["satellite"].fields["name"]
            q = core.zn(d.get("instrument_index", 0))
            i, j = w.ix
            core.oblig("collected for this target over the period, as asked", z3.And(z3.BoolVal(d["point"] is pt), equal(d["start"], start), equal(d["end"], end), equal(d.get("omit_solar", True), omit), q >= 0, q < NI(i, j)))
            return SFrame(Seq(NR(i, j, q), lambda t: Who(i, j, q, t)))
        CONTRACTS["tatc.analysis.coverage.collect_observations"] = one
        arg = Seq(m, constellation) if listed else constellation(z3.IntVal(0))
        g = v.resolve(v.call(coverage.collect_multi_observations, pt, arg, start, end, omit))
        if not isinstance(g, SFrame):
            raise Unsupported("result of another kind")
        if empty:
            v.ensure("the empty table only if there is no satellite", m == 0)
            empty.clear()
            return
        v.ensure("sorted by start", z3.BoolVal(g.order == "start"))
        i, j, k, t = z3.Ints("i j k t")
        rows = g.rows
        if not isinstance(rows, FlatSeq) or not isinstance(getattr(rows, "parts", None), FlatSeq):
            raise Unsupported("rows of another shape")
        P = rows.parts
        if listed and not isinstance(P.inner(i), FlatSeq):
            raise Unsupported("tables of another shape")
        if v.check(z3.Bool("soundness direction")):
            x, y = z3.Ints("x y")
            one_of = rows.get(x)
            v.assume(z3.And(x >= 0, x < rows.n))
            w = one_of.ix
            v.ensure("every row is one record of one member's instrument", z3.And(w[0] >= 0, w[0] < m, w[1] >= 0, w[1] < NM(w[0]), w[2] >= 0, w[2] < NI(w[0], w[1]), w[3] >= 0, w[3] < NR(w[0], w[1], w[2])))
            v.assume(z3.And(y > x, y < rows.n))
            u = rows.get(y).ix
            v.ensure("no record twice", z3.Or(*[p != q for p, q in zip(w, u)]))
        else:
            v.assume(z3.And(i >= 0, i < m, j >= 0, j < NM(i), k >= 0, k < NI(i, j), t >= 0, t < NR(i, j, k)))
            part = P.r(i, P.inner(i).r(j, k)) if listed else P.r(j, k)
            i = i if listed else z3.IntVal(0)
            place = rows.r(part, t)
            v.ensure("every record is a row", z3.And(place >= 0, place < rows.n, *[p == q for p, q in zip(rows.get(place).ix, (i, j, k, t))]))
    V.vc("collect_multi_observations, list", lambda v: body_multi(v, True))
    V.vc("collect_multi_observations, one satellite or constellation", lambda v: body_multi(v, False))


class Who(Sym):
    """names a member, an instrument or a record by its indices."""

    def __init__(self, *ix):
        self.ix = ix

    def _subst(self, p):
        return Who(*[core.subst(x, p) for x in self.ix])


class Listed(Sym):
    def __init__(self, i, n, member):
        self.i, self.n, self.member = i, n, member

    def _subst(self, p):
        m = self.member
        return Listed(core.subst(self.i, p), core.subst(self.n, p), m)

    def _isinstance(self, c):
        return c not in (list, tuple)

    def generate_members(self):
        i, m = self.i, self.member
        return Seq(self.n, lambda j: m(i, j))


def concat_frames(interp, args, kw):
    P = args[0]
    if not isinstance(P, Seq):
        return NotImplemented
    if kw or len(args) > 1:
        raise Unsupported("concat options")
    ctx.trust("pandas: concat holds the rows of the parts, in order")
    rows = FlatSeq(P.n, lambda a: P.get(a).rows)
    rows.parts = P
    return SFrame(rows)


class Topos(Sym):
    def __init__(self, *c):
        self.c = c

    def _subst(self, p):
        return Topos(*[core.subst(x, p) for x in self.c])

    def at(self, t):
        return Opaque("site", t)


class Alt(Sym):
    def __init__(self, tr):
        self.elevation = self
        self.m = AltVal(tr.t_)

    def _subst(self, p):
        return self


class AltVal(Sym):
    def __init__(self, t):
        self.t = t

    def _subst(self, p):
        return self
