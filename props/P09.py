"""P09 repeat-cycle folding."""
import math
from datetime import datetime, timedelta
import numpy as np
import z3
from vf.session import Fail, Skip, expect
from vf import core, seq, strs, tmodel
from vf.core import Num, zb, zr, equal, Unsupported, ctx
from vf.seq import Seq, FSeq, FlatSeq, zi
from vf.tmodel import STime, SDelta, SkyTime, SSat, SGeo, SSub, DIST, stime, sdelta, FIND_EVENTS
from vf.interp import MODELS, SObj, CONTRACTS
from vf.orb import tle_lines, gen_epoch, epoch_of, TwoLineElements, UTC
from tatc.schemas import Point
from tatc import constants, config
from skyfield.api import EarthSatellite, wgs84
from skyfield.framelib import itrs

ASSUMPTIONS = ["skyfield: propagation, event search (in time order, strictly inside the searched period) and frames of one element set",
               "the repeat-cycle cache is empty when the search runs (a cached cycle found with other limits is returned as is)"]
Q = "tatc.schemas.orbit.TwoLineElements."


# ------------------------------------------------------------------ concrete oracle
def obj(i):
    return TwoLineElements(tle=list(i["lines"]))


class cycle:
    """orbits of this class report the given repeat cycle."""

    def __init__(self, rc):
        self.rc = rc

    def __enter__(self):
        self.old = TwoLineElements.get_repeat_cycle
        TwoLineElements.get_repeat_cycle = lambda s, *a, **k: self.rc

    def __exit__(self, *a):
        TwoLineElements.get_repeat_cycle = self.old


def fold(t, ep, rc):
    off = t - ep
    return ep + (1 if off >= timedelta(0) else -1) * (abs(off) % rc)


def same_state(a, b, what):
    p, q = a.position.m, b.position.m
    if np.isnan(q).any() or np.isnan(p).any():
        expect(np.isnan(p).any() and np.isnan(q).any(), what, "state")
        return
    expect(np.abs(p - q).max() < 1.0 and np.abs(a.velocity.m_per_s - b.velocity.m_per_s).max() < 0.01,
           f"{what}: position differs by {np.abs(p - q).max()} m", "state")


def check_track(i):
    o = obj(i)
    ep = o.get_epoch()
    sat = EarthSatellite(*i["lines"])
    ts = [ep + timedelta(seconds=s) for s in i["offsets"]]
    rc = timedelta(seconds=i["cycle"]) if i["cycle"] else None
    at = lambda t: sat.at(constants.timescale.from_datetime(t))
    old = config.rc.repeat_cycle_for_orbit_track
    with cycle(rc):
        try:
            config.rc.repeat_cycle_for_orbit_track = i["use"]
            kw = {} if i["default"] else dict(try_repeat=i["use"])
            tr = o.get_orbit_track(ts, **kw)
            one = o.get_orbit_track(ts[0], **kw)
        finally:
            config.rc.repeat_cycle_for_orbit_track = old
    tgt = [fold(t, ep, rc) if rc and i["use"] else t for t in ts]
    expect(tr.position.m.shape == (3, len(ts)), "one state per time", "count")
    for k, t in enumerate(ts):
        same_state(tr[k], at(tgt[k]), f"state for {t} (epoch {ep}, cycle {rc})")
        expect(abs((tr.t[k].utc_datetime() - t).total_seconds()) < 1e-3, f"time stamp {tr.t[k].utc_iso()} for {t}", "stamp")
    same_state(one, at(tgt[0]), f"state for single time {ts[0]}")
    expect(abs((one.t.utc_datetime() - ts[0]).total_seconds()) < 1e-3, "time stamp", "stamp")


def check_events(i):
    o = obj(i)
    ep = o.get_epoch()
    sat = EarthSatellite(*i["lines"])
    rc = timedelta(seconds=i["cycle"]) if i["cycle"] else None
    a = ep + timedelta(seconds=i["start"])
    b = a + timedelta(seconds=i["span"])
    pt = Point(id=0, latitude=i["lat"], longitude=i["lon"], elevation=i["h"])
    topos = wgs84.latlon(i["lat"], i["lon"], i["h"])
    find = lambda x, y: [(t.utc_datetime(), int(e)) for t, e in zip(*sat.find_events(topos, constants.timescale.from_datetime(x), constants.timescale.from_datetime(y), i["el"]))]
    with cycle(rc):
        ts, es = o.get_observation_events(pt, a, b, i["el"], try_repeat=i["use"])
    got = [(t.utc_datetime(), int(e)) for t, e in zip(ts, es)] if len(es) else []
    if rc and i["use"] and rc < b - a:
        base = find(a, a + rc)
        n = int((b - a) / rc) + 2
        exp = [(t + k * rc, e) for k in range(n) for t, e in base if t + k * rc <= b]
        if any(abs(t + k * rc - b) < timedelta(seconds=1e-3) for k in range(n) for t, e in base):
            raise Skip()
    else:
        exp = find(a, b)
    expect(len(got) == len(exp), f"{len(got)} events, expected {len(exp)} for {a}..{b}, cycle {rc}", "events")
    for (t, e), (u, f) in zip(got, exp):
        expect(e == f and abs(t - u) < timedelta(seconds=0.05), f"event {e} at {t}, expected {f} at {u}", "events")


def check_cycle(i):
    o = obj(i)
    ep = o.get_epoch()
    sat = EarthSatellite(*i["lines"])
    ts0 = constants.timescale.from_datetime(ep)
    p0, v0 = sat.at(ts0).frame_xyz_and_velocity(itrs)
    if np.isnan(p0.m).any():
        raise Skip()
    dur = timedelta(seconds=i["dur"])
    tt, ee = sat.find_events(wgs84.subpoint_of(sat.at(ts0)), constants.timescale.from_datetime(ep + timedelta(minutes=10)),
                             constants.timescale.from_datetime(ep + dur), i["el"])
    exp, sure = None, True
    for t, e in zip(tt, ee):
        if e != 1:
            continue
        p, v = sat.at(t).frame_xyz_and_velocity(itrs)
        dp, dv = np.linalg.norm(p.m - p0.m), np.linalg.norm(v.m_per_s - v0.m_per_s)
        if abs(dp - i["dp"]) < 1e-3 or abs(dv - i["dv"]) < 1e-6:
            sure = False
            break
        if dp < i["dp"] and dv < i["dv"]:
            exp = t.utc_datetime() - ep
            break
    if not sure:
        raise Skip()
    kw = dict(max_delta_position=i["dp"], max_delta_velocity=i["dv"], min_elevation_angle=i["el"], max_search_duration=dur)
    if i["default"]:
        saved = {k: getattr(config.rc, k) for k in ("repeat_cycle_delta_position_m", "repeat_cycle_delta_velocity_m_per_s", "repeat_cycle_search_elevation_deg", "repeat_cycle_search_duration_days")}
        try:
            for k, x in zip(saved, (i["dp"], i["dv"], i["el"], i["dur"] / 86400)):
                setattr(config.rc, k, x)
            got = o.get_repeat_cycle()
            again = o.get_repeat_cycle()
        finally:
            for k, x in saved.items():
                setattr(config.rc, k, x)
    else:
        got = o.get_repeat_cycle(lazy_load=False, **kw)
        again = o.get_repeat_cycle(lazy_load=True, **kw)
    for g in (got, again):
        expect((g is None) == (exp is None), f"repeat cycle {g}, expected {exp} ({i})", "cycle")
        if exp is not None:
            expect(abs(g - exp) < timedelta(seconds=0.01), f"repeat cycle {g}, expected {exp}", "cycle")


def leo(r, **k):
    f = dict(cat="25544", incl=r.choice([97.6, 51.6, r.uniform(20, 160)]), ecc=r.choice([1e-3, 0.01]), n=r.choice([15.0, 14.0, r.uniform(13, 15.5)]))
    f.update(k)
    return tle_lines(r, datetime(2022, 1, 1, tzinfo=UTC) + timedelta(seconds=r.randrange(10**7)), f, rich=False)


def concrete(C):
    def gt(r):
        c = r.choice([0, 5400, 86400, 86164.5, 250000, r.uniform(5000, 2e6)])
        off = [r.choice([0, 1, -1, c, -c, 2 * c, -3 * c, 1.5 * c, r.uniform(-3e6, 3e6), r.uniform(-3e6, 3e6), -0.3 * c, -2.7 * c]) for _ in range(r.randrange(1, 6))]
        return dict(lines=leo(r), cycle=c, offsets=[round(x, 6) for x in off], use=r.random() < 0.8, default=r.random() < 0.3)
    C.cases("orbit track", gt, check_track, 200, "LEO element set, cycles 0 (none) or 5000 s..23 d, offsets both sides of the epoch", share=0.4)

    def ge(r):
        c = r.choice([0, 5400, 86400, 43200, r.uniform(5000, 2e5)])
        span = r.choice([r.uniform(3600, 2e5), c * r.uniform(0.5, 4) + 100, (c or 5400) * r.choice([1, 2, 3]), 86400.0])
        return dict(lines=leo(r), cycle=c, start=r.uniform(-1e5, 1e6), span=min(span, 4e5), use=r.random() < 0.85, lat=r.uniform(-80, 80), lon=r.uniform(-180, 180), h=r.choice([0, 0, 500.0]),
                    el=r.choice([0.0, 5.0, 20.0, 60.0, 89.0]))
    C.cases("events", ge, check_events, 120, "LEO passes over a point, cycles shorter and longer than the period", share=0.6)

    def gc(r):
        return dict(lines=leo(r), dp=r.choice([1e4, 1e5, 5e5, 1e6, 10 ** r.uniform(3, 6.5)]), dv=r.choice([10.0, 100.0, 1000.0, 1e5]), el=r.choice([10.0, 30.0, 60.0, 80.0, 88.0]),
                    dur=r.choice([86400.0, 172800.0, 5 * 86400.0]), default=r.random() < 0.4)
    C.cases("repeat cycle search", gc, check_cycle, 150, "position limits 1 km..3000 km, velocity limits 10 m/s..100 km/s, search 1..5 days", share=0.9)


# ------------------------------------------------------------------ deductive
def sym(v):
    o = SObj(TwoLineElements, dict(type="tle", tle=strs.lines(2)))
    ep = stime(v, "epoch")
    CONTRACTS[Q + "get_epoch"] = lambda interp, a, k: ep
    return o, ep


def is_fold(t, x, ep, rc):
    """x is the signed remainder of t - ep by rc, from ep (k whole cycles, same sign)."""
    off, r = t - ep, x - ep
    k = z3.Int("folds")
    q = z3.ToInt(core.div(z3.If(off >= 0, off, -off), rc))
    m = z3.If(off >= 0, off, -off) - rc * z3.ToReal(q)
    return x == ep + z3.If(off > 0, m, z3.If(off < 0, -m, z3.RealVal(0)))


def is_set0(sat, n=2):
    return z3.And(sat.l1.j == 0, sat.l2.j == 1)


def deductive(V):
    old_find = FIND_EVENTS[0]
    try:
        for has in (True, False):
            for use in (True, False):
                for vec in (False, True):
                    def body(v, has=has, use=use, vec=vec):
                        o, ep = sym(v)
                        rc = sdelta(v, "cycle", gt=0)
                        CONTRACTS[Q + "get_repeat_cycle"] = lambda interp, a, k: rc if has else None
                        if vec:
                            m = v.int("times", ge=1)
                            T = z3.Function("time_at", z3.IntSort(), z3.RealSort())
                            t = Seq(m.e, lambda j: STime(T(j)))
                        else:
                            t = stime(v, "t")
                        g = v.call(TwoLineElements.get_orbit_track, o, t, try_repeat=use)
                        if not isinstance(g, SGeo):
                            raise Unsupported("orbit track of another shape")
                        v.ensure("the element set's satellite", is_set0(g.sat))
                        if vec:
                            j = z3.Int("j")
                            v.assume(z3.And(j >= 0, j < m.e))
                            v.ensure("one state per time", z3.And(g._t.t.n == m.e, g.stamp.t.n == m.e))
                            at, st, tt = g._t.t.get(j).e, g.stamp.t.get(j).e, T(j)
                        else:
                            at, st, tt = g._t.t.e, g.stamp.t.e, t.e
                        v.ensure("stamped with the requested time", st == tt)
                        v.ensure("propagated to the folded time" if has and use else "propagated to the requested time",
                                 is_fold(tt, at, ep.e, rc.e) if has and use else at == tt)
                    V.vc(f"get_orbit_track, {'list' if vec else 'one time'}, {'cycle' if has else 'no cycle'}, {'used' if use else 'not used'}", body)

        NE = z3.Function("n_events", z3.RealSort(), z3.RealSort(), z3.IntSort())
        TE = z3.Function("t_event", z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.RealSort())
        KE = z3.Function("k_event", z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.IntSort())

        for has in (True, False):
            for use in (True, False):
                def body_ev(v, has=has, use=use):
                    o, ep = sym(v)
                    rc = sdelta(v, "cycle", gt=0)
                    CONTRACTS[Q + "get_repeat_cycle"] = lambda interp, a, k: rc if has else None
                    a, b = stime(v, "start"), stime(v, "end")
                    v.assume(a < b)
                    el, lat, lon, hh = v.real("el"), v.real("lat"), v.real("lon"), v.real("h")

                    def find(sat, topos, t0, t1, alt):
                        core.oblig("search of this satellite at the point with the requested elevation",
                                   z3.And(is_set0(sat), equal(alt, el), *[equal(x, y) for x, y in zip(topos.args, (lat, lon, hh))]))
                        y, z = t0.t.e, t1.t.e
                        n = NE(y, z)
                        j, k = seq.gvar("j"), seq.gvar("k")
                        core.assume(n >= 0)
                        core.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(TE(y, z, j) > y, TE(y, z, j) < z)), patterns=[TE(y, z, j)]))
                        core.assume(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < n), TE(y, z, j) <= TE(y, z, k)), patterns=[z3.MultiPattern(TE(y, z, j), TE(y, z, k))]))
                        return (SkyTime(Seq(n, lambda j: STime(TE(y, z, j)), True)), Seq(n, lambda j: Num(KE(y, z, j)), True))
                    FIND_EVENTS[0] = find
                    pt = SObj(Point, dict(id=0, latitude=lat, longitude=lon, elevation=hh))
                    ts, es = v.call(TwoLineElements.get_observation_events, o, pt, a, b, el, try_repeat=use)
                    rep = has and use and v.check(rc.e < b.e - a.e)
                    q = z3.Int("q")
                    hi = a.e + rc.e if rep else b.e
                    cnt = NE(a.e, hi)
                    if not rep:
                        v.ensure("all events of the period", z3.And(ts.t.n == cnt, es.n == cnt))
                        v.assume(z3.And(q >= 0, q < cnt))
                        v.ensure("event times", equal(ts.t.get(q), STime(TE(a.e, hi, q))))
                        v.ensure("event kinds", equal(es.get(q), Num(KE(a.e, hi, q))))
                        return
                    if not isinstance(ts, SkyTime):
                        v.ensure("empty only if the first cycle has no events", cnt <= 0)
                        return
                    T = ts.t
                    if not (isinstance(T, FSeq) and isinstance(es, FSeq)):
                        raise Unsupported("event table of another shape")
                    # both tables filter the same list of shifted events
                    i = z3.Int("i")
                    v.ensure("times and kinds are filtered alike", z3.And(T.base_n == es.base_n, z3.Implies(z3.And(i >= 0, i < T.base_n), zb(T.cond(i)) == zb(es.cond(i)))))
                    TF = getattr(T, "base_seq", None)
                    EF = getattr(es, "base_seq", None)
                    if not (isinstance(TF, FlatSeq) and isinstance(EF, FlatSeq)):
                        raise Unsupported("event table of another shape")
                    c, d = z3.Ints("c d")
                    v.ensure("whole numbers of cycles are covered", z3.And(TF.outer_n == EF.outer_n, z3.ToReal(TF.outer_n) * rc.e >= b.e - a.e, TF.outer_n >= 0))
                    rng = z3.And(c >= 0, c < TF.outer_n, q >= 0, q < cnt)
                    v.ensure("each cycle repeats every event", z3.Implies(z3.And(c >= 0, c < TF.outer_n), z3.And(TF.inner(c).n == cnt, EF.inner(c).n == cnt)))
                    v.ensure("shifted by whole cycles", z3.Implies(rng, equal(TF.inner(c).get(q), STime(TE(a.e, hi, q) + z3.ToReal(c) * rc.e))))
                    v.ensure("with the same kind", z3.Implies(rng, equal(EF.inner(c).get(q), Num(KE(a.e, hi, q)))))
                    v.ensure("kept exactly up to the end of the period", z3.Implies(z3.And(i >= 0, i < T.base_n), zb(T.cond(i)) == (TF.get(i).e <= b.e)))
                    v.ensure("no later cycle holds an event of the period", z3.Implies(z3.And(c >= TF.outer_n, q >= 0, q < cnt), TE(a.e, hi, q) + z3.ToReal(c) * rc.e > b.e), hints=nonlin(c, TF.outer_n, rc.e) + v.instances(q))
                    # order: lexicographic in (cycle, event) is time order
                    v.ensure("time order within and across cycles", z3.Implies(z3.And(c >= 0, c < d, q >= 0, q < cnt, i >= 0, i < cnt),
                             TE(a.e, hi, q) + z3.ToReal(c) * rc.e < TE(a.e, hi, i) + z3.ToReal(d) * rc.e), hints=nonlin(d, c + 1, rc.e) + v.instances(q, i))
                V.vc(f"get_observation_events, {'cycle' if has else 'no cycle'}, {'used' if use else 'not used'}", body_ev)

        def body_rc(v):
            o, ep = sym(v)
            dp, dv, el = v.real("dp", gt=0), v.real("dv", gt=0), v.real("el")
            dur = sdelta(v, "dur", gt=600)
            seen = []

            def find(sat, topos, t0, t1, alt):
                if not isinstance(topos, SSub):
                    raise Unsupported("search point")
                core.oblig("search over the initial ground point, from ten minutes after the epoch to the search limit",
                           z3.And(is_set0(sat), equal(alt, el), is_set0(topos.geo.sat), topos.geo._t.t.e == ep.e, t0.t.e == ep.e + 600, t1.t.e == ep.e + dur.e))
                y, z = t0.t.e, t1.t.e
                n = NE(y, z)
                core.assume(n >= 0)
                j, k = seq.gvar("j"), seq.gvar("k")
                core.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(TE(y, z, j) > y, TE(y, z, j) < z)), patterns=[TE(y, z, j)]))
                core.assume(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < n), TE(y, z, j) <= TE(y, z, k)), patterns=[z3.MultiPattern(TE(y, z, j), TE(y, z, k))]))
                seen.append((y, z))
                return (SkyTime(Seq(n, lambda j: STime(TE(y, z, j)), True)), Seq(n, lambda j: Num(KE(y, z, j)), True))
            FIND_EVENTS[0] = find
            r = v.call(TwoLineElements.get_repeat_cycle, o, dp, dv, el, dur, False)
            y, z = ep.e + 600, ep.e + dur.e
            n = NE(y, z)
            P, W = z3.StringVal("position/itrs/m"), z3.StringVal("velocity/itrs/m_per_s")
            valid = lambda k: z3.And(k >= 0, k < n, KE(y, z, k) == 1, DIST(P, TE(y, z, k), ep.e) < dp.e, DIST(W, TE(y, z, k), ep.e) < dv.e)
            k, e = z3.Ints("k e")
            if r is None:
                v.ensure("no culmination returns to the initial state", z3.Not(valid(k)))
            else:
                v.ensure("some culmination returns to the initial state at that time", z3.Exists([k], z3.And(valid(k), r.e == TE(y, z, k) - ep.e)))
                v.ensure("it is the earliest", z3.Implies(valid(e), r.e <= TE(y, z, e) - ep.e))
                v.ensure("positive", r.e > 0)
        V.vc("get_repeat_cycle", body_rc)
    finally:
        FIND_EVENTS[0] = old_find




def nonlin(a, b, x):
    """monotone product: a >= b and x > 0 give a*x >= b*x (ground instance of a real-arithmetic fact)."""
    return [z3.Implies(z3.And(a >= b, x > 0), z3.ToReal(a) * x >= z3.ToReal(b) * x)]
