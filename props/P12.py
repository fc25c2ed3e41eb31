"""P12 visible intervals."""
import math
from datetime import datetime, timedelta, timezone
import numpy as np
import pandas as pd
import z3
from vf.session import Fail, Skip, expect
from vf import core, seq, tmodel
from vf.core import Num, zb, equal, Unsupported, ctx, SymRaise
from vf.seq import Seq, FSeq, CatSeq, zi
from vf.tmodel import STime, SDelta, SkyTime, stime, sdelta
from vf.pmodel import SInterval
from vf.interp import SObj, CONTRACTS, METHOD_MODELS
from vf.orb import tle_lines, TwoLineElements, UTC
from tatc.schemas import Point, Satellite, Instrument
from tatc import constants, utils
from tatc.analysis import coverage
from skyfield.api import EarthSatellite, wgs84
from skyfield.timelib import Time

ASSUMPTIONS = ["the event search returns event times in increasing order, inside the period, rises and sets alternating (contract of skyfield's find_events)",
               "a pass longer than twice the maximum access time is dropped by design"]


def fn():
    f = getattr(coverage, "_get_visible_interval_series", None)
    if f is None:
        raise Skip()
    return f


class events_of:
    def __init__(self, times, kinds):
        self.r = (times, kinds)

    def __enter__(self):
        self.old = TwoLineElements.get_observation_events
        self.calls = []

        def f(s, *a, **k):
            self.calls.append((s, a, k))
            return self.r
        TwoLineElements.get_observation_events = f
        return self

    def __exit__(self, *a):
        TwoLineElements.get_observation_events = self.old


def expected(start, end, ev, limit):
    """passes of the event list: (open) set, rise to following set, (still open) rise."""
    if ev and all(k == 1 for _, k in ev):
        return [(start, end)]
    rs = [(t, k) for t, k in ev if k != 1]
    out = []
    for n, (t, k) in enumerate(rs):
        if k == 2 and n == 0 and t > start:
            out.append((start, t))
        if k == 0:
            nxt = [u for u, j in rs[n + 1:] if j == 2]
            if nxt:
                if nxt[0] - t < limit:
                    out.append((t, nxt[0]))
            elif t < end:
                out.append((t, end))
    return out


def check(i):
    lines = i["lines"]
    o = TwoLineElements(tle=list(lines))
    tz = timezone(timedelta(hours=i["tz"]))
    start = (o.get_epoch().replace(microsecond=0) + timedelta(seconds=i["start"])).astimezone(tz)
    end = start + timedelta(seconds=i["span"])
    sat = EarthSatellite(*lines)
    alt = wgs84.geographic_position_of(sat.at(constants.timescale.from_datetime(start))).elevation.m
    limit = 2 * utils.compute_max_access_time(alt, i["el"])
    if not limit > 0:
        raise Skip()
    # event times: fractions of the period, or multiples of the access limit after the previous event
    ev, t = [], 0.0
    for kind, how, x in i["events"]:
        t = i["span"] if how == "e" else t + (x * i["span"] if how == "f" else x * limit)
        if how == "l" and abs(x - 1) < 1e-3 or 0 < abs(t - i["span"]) < 0.01 or t > i["span"] or 0 < t < 0.01:
            raise Skip()
        ev.append((start + timedelta(seconds=round(t, 3)), kind))
    rs = [k for _, k in ev if k != 1]
    if any(a == b for a, b in zip(rs, rs[1:])):
        raise Skip()
    lim = timedelta(seconds=limit)
    last = {}
    for n, (u, k) in enumerate(ev):
        if k == 0:
            for w, j in ev[n + 1:]:
                if j == 2:
                    if abs((w - u) - lim) < timedelta(milliseconds=10):
                        raise Skip()
                    break
    pt = Point(id=3, latitude=10.0, longitude=20.0)
    s = Satellite(name="s", orbit=o, instruments=[Instrument(name="i")])
    if ev:
        ts = constants.timescale.from_datetimes([u for u, _ in ev])
        es = np.array([k for _, k in ev])
    else:
        ts, es = Time([], []) if False else constants.timescale.utc(2020, 1, 1, 0, 0, np.array([])), np.array([], dtype=int)
    with events_of(ts, es) as e:
        got = list(fn()(pt, s, i["el"], start, end))
    what = f"events {[(round((u - start).total_seconds(), 3), k) for u, k in ev]} in a period of {i['span']} s, limit {limit} s"
    if e.calls:
        _, a, k = e.calls[0]
        k = dict(zip(("point", "start", "end", "min_elevation_angle"), a)) | k
        expect(k.get("point") == pt and k.get("start") == start and k.get("end") == end and k.get("min_elevation_angle") == i["el"], f"searched {k}", "search")
    exp = expected(start, end, ev, lim)
    g = [(x.left.to_pydatetime(), x.right.to_pydatetime()) for x in got]
    expect(len(g) == len(exp), f"{what}: {len(g)} intervals {[((a - start).total_seconds(), (b - start).total_seconds()) for a, b in g]}, expected {len(exp)}", "count")
    for (a, b), (c, d) in zip(g, exp):
        expect(abs((a - c).total_seconds()) < 2e-3 and abs((b - d).total_seconds()) < 2e-3, f"{what}: interval {(a - start).total_seconds()}..{(b - start).total_seconds()}, expected {(c - start).total_seconds()}..{(d - start).total_seconds()}", "interval")


def check_real(i):
    """real passes: the intervals are those where the satellite is above the elevation, sampled."""
    o = TwoLineElements(tle=list(i["lines"]))
    start = o.get_epoch() + timedelta(seconds=i["start"])
    end = start + timedelta(seconds=i["span"])
    pt = Point(id=0, latitude=i["lat"], longitude=i["lon"], elevation=i["h"])
    s = Satellite(name="s", orbit=o, instruments=[Instrument(name="i")])
    got = list(fn()(pt, s, i["el"], start, end))
    sat = EarthSatellite(*i["lines"])
    topos = wgs84.latlon(i["lat"], i["lon"], i["h"])
    for x in got:
        a, b = x.left.to_pydatetime(), x.right.to_pydatetime()
        expect(start - timedelta(milliseconds=1) <= a < b <= end + timedelta(milliseconds=1), f"interval {a}..{b} outside {start}..{end}", "inside")
    for x, y in zip(got, got[1:]):
        expect(x.right <= y.left, "intervals overlap", "overlap")
    n = int(i["span"] // 20)
    T = [start + timedelta(seconds=20 * k) for k in range(n)]
    alt = (sat - topos).at(constants.timescale.from_datetimes(T)).altaz()[0].degrees
    for t, h in zip(T, alt):
        if abs(h - i["el"]) < 0.3:
            continue
        inside = any(x.left <= t <= x.right for x in got)
        expect(inside == (h > i["el"]), f"at {t} elevation {h:.2f} ({i['el']} required): {'in' if inside else 'not in'} a visible interval", "visibility")


def gen_events(r):
    n = r.choice([0, 1, 1, 2, 3, 4, 6, 9])
    out, k = [], r.choice([0, 1, 2])
    if r.random() < 0.15:
        return [[1, "f", r.uniform(0.05, 0.3)] for _ in range(r.choice([1, 2, 3]))]
    for _ in range(n):
        out.append([k, *(("l", r.choice([0.1, 0.3, 0.7, 0.95, 1.05, 1.5])) if r.random() < 0.7 else ("f", r.uniform(0.001, 0.4)))])
        if k == 1 and r.random() < 0.15:
            continue
        k = (k + 1) % 3
        if k == 1 and r.random() < 0.15:
            k = 2
    if out and r.random() < 0.2:          # an event exactly when the period starts
        out[0][1:] = ["f", 0.0]
    if out and r.random() < 0.2:          # or ends
        out[-1][1] = "e"
    return out


def concrete(C):
    def g(r):
        return dict(lines=tle_lines(r, datetime(2022, 1, 1, tzinfo=UTC) + timedelta(seconds=r.randrange(10**7)), dict(cat="25544", incl=r.uniform(20, 160), ecc=0.001, n=r.uniform(13, 15.5)), rich=False),
                    start=r.randrange(0, 86400), span=r.choice([3600.0, 43200.0, 86400.0, 400.0]), tz=r.choice([0, 0, 5, -7]), el=r.choice([0.0, 10.0, 30.0, 60.0]), events=gen_events(r))
    C.cases("event patterns", g, check, 1200, "0..9 events of any alternating pattern, gaps 0.1..1.5 times the access limit or a share of the period", share=0.6)

    def gr(r):
        return dict(lines=tle_lines(r, datetime(2022, 1, 1, tzinfo=UTC) + timedelta(seconds=r.randrange(10**7)), dict(cat="25544", incl=r.uniform(40, 120), ecc=0.001, n=r.uniform(13, 15.5)), rich=False),
                    start=r.uniform(0, 86400), span=r.choice([2000.0, 7200.0, 21600.0]), lat=r.uniform(-60, 60), lon=r.uniform(-180, 180), h=r.choice([0.0, 1500.0]), el=r.choice([0.0, 5.0, 20.0]))
    C.cases("real passes", gr, check_real, 60, "LEO passes, periods up to 6 h, sampled every 20 s", share=0.8)


# ------------------------------------------------------------------ deductive
class FakeTle(core.Sym):
    """the orbit's element set: event search by contract."""

    def __init__(self, search, at):
        self.search, self.at_ = search, at

    def _subst(self, p):
        return self

    def to_tle(self):
        return self

    def as_skyfield(self, *a):
        return FakeSat(self.at_)

    def get_observation_events(self, *a, **k):
        return self.search(*a, **k)


class FakeSat(core.Sym):
    def __init__(self, at):
        self.at_ = at

    def _subst(self, p):
        return self

    def at(self, t):
        return self.at_(t)


class FakePos(core.Sym):
    def __init__(self, el):
        self.elevation = type("E", (core.Sym,), dict(_subst=lambda s, p: s))()
        self.elevation.m = el

    def _subst(self, p):
        return self


def deductive(V):
    def setup(v):
        n = v.int("events", ge=0).e
        T = z3.Function("t_event", z3.IntSort(), z3.RealSort())
        K = z3.Function("k_event", z3.IntSort(), z3.IntSort())
        start, end = stime(v, "start"), stime(v, "end")
        v.assume(start < end)
        i, j = seq.gvar("i"), seq.gvar("j")
        v.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(T(i) >= start.e, T(i) <= end.e)), patterns=[T(i)]))
        v.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(K(i) >= 0, K(i) <= 2)), patterns=[K(i)]))
        v.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), T(i) < T(j)), patterns=[z3.MultiPattern(T(i), T(j))]))
        el = v.real("el")
        limit = v.real("max_access", gt=0)
        alt = v.real("alt")
        pt = SObj(Point, dict(id=0, latitude=v.real("lat"), longitude=v.real("lon"), elevation=v.real("h")))

        def search(point, a, b, e, **k):
            core.oblig("the point is searched over the whole period at the requested elevation", z3.And(z3.BoolVal(point is pt), equal(a, start), equal(b, end), equal(e, el)))
            return (SkyTime(Seq(n, lambda q: STime(T(q)), True)), Seq(n, lambda q: Num(K(q)), True))
        tle = FakeTle(search, lambda t: FakePos(alt))
        sat = SObj(Satellite, dict(name="s", orbit=tle, instruments=[], type="satellite"))
        METHOD_MODELS[(type(wgs84), "geographic_position_of")] = lambda interp, self_, args, kw: args[0]
        CONTRACTS["tatc.utils.compute_max_access_time"] = lambda interp, a, k: limit
        return n, T, K, start, end, limit, pt, sat, el

    def body(v):
        n, T, K, start, end, limit, pt, sat, el = setup(v)
        f = getattr(coverage, "_get_visible_interval_series", None)
        if f is None:
            raise Unsupported("function not found")
        # rises and sets alternate: between two rises there is a set, between two sets a rise
        I = z3.IntSort()
        SB, RB = z3.Function("set_between", I, I, I), z3.Function("rise_between", I, I, I)
        i, j = seq.gvar("i"), seq.gvar("j")
        v.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n, K(i) == 0, K(j) == 0), z3.And(i < SB(i, j), SB(i, j) < j, K(SB(i, j)) == 2)), patterns=[SB(i, j)]))
        out = v.call(f, pt, sat, el, start, end)
        parts = out.parts if isinstance(out, CatSeq) else [out]
        parts = [p for p in parts if not (isinstance(p, list) and not p)]
        a, b, c = z3.Ints("a b c")
        rng = lambda *xs: z3.And(*[z3.And(x >= 0, x < n) for x in xs])
        # what must be listed
        only_culm = lambda x: z3.Implies(rng(x), K(x) == 1)
        S, E, L = start.e, end.e, 2 * limit.e
        seqs = [p for p in parts if isinstance(p, Seq)]
        items = [x for p in parts if isinstance(p, list) for x in p]
        if len(seqs) > 1 or not all(isinstance(x, SInterval) for x in items):
            raise Unsupported("interval list of another shape")
        mid = seqs[0] if seqs else None
        first = last = whole = None
        at = next((k for k, p in enumerate(parts) if p is mid), -1)
        for k, p in enumerate(parts):
            if isinstance(p, list):
                if len(p) > 1 and mid is not None:
                    raise Unsupported("interval list of another shape")
                before = mid is not None and k < at
                if before:
                    first = p[0]
                elif mid is not None:
                    last = p[0]
                elif len(p) == 1:
                    whole = p[0]
                else:
                    raise Unsupported("interval list of another shape")
        if mid is None:
            if whole is None:
                v.ensure("no interval only if there are no events", n <= 0)
                return
            v.ensure("whole period", z3.And(equal(whole.left, start), equal(whole.right, end)))
            v.ensure("whole period only if every event is a culmination", only_culm(a))
            return
        if not isinstance(mid, FSeq):
            raise Unsupported("interval list of another shape")
        if first is not None:
            k1 = time_index(first.right)
            v.ensure("a first interval from the start ends at the first set", z3.And(equal(first.left, start), rng(k1), K(k1) == 2, z3.Implies(z3.And(rng(a), K(a) == 2), T(a) >= T(k1))))
            v.ensure("it precedes every rise", z3.Implies(z3.And(rng(a), K(a) == 0), T(a) > T(k1)))
            v.ensure("it has positive length", zb(first.left < first.right))
        else:
            v.ensure("no interval from the start only if a rise precedes the first set", z3.Implies(z3.And(rng(b), K(b) == 2, T(b) > start.e, z3.ForAll([a], z3.Implies(z3.And(rng(a), K(a) == 2), a >= b))), z3.Exists([c], z3.And(rng(c), K(c) == 0, T(c) < T(b)))))
        if last is not None:
            k2 = time_index(last.left)
            v.ensure("a last interval to the end starts at the last rise", z3.And(equal(last.right, end), rng(k2), K(k2) == 0, z3.Implies(z3.And(rng(a), K(a) == 0), T(a) <= T(k2))))
            v.ensure("the last interval has positive length", zb(last.left < last.right))
            v.ensure("it follows every set", z3.Implies(z3.And(rng(a), K(a) == 2), T(a) < T(k2)))
        else:
            v.ensure("no interval to the end only if a set follows the last rise", z3.Implies(z3.And(rng(b), K(b) == 0, T(b) < end.e, z3.ForAll([a], z3.Implies(z3.And(rng(a), K(a) == 0), a <= b))), z3.Exists([c], z3.And(rng(c), K(c) == 2, T(c) > T(b)))))
        # completeness: every rise with a following set in time is listed
        v.ensure("every rise with a set in time is listed", complete(mid, a, b, rng(a, b), K, T, L))
        q, r = z3.Ints("q r")
        v.assume(z3.And(q >= 0, q < mid.n, r >= 0, r < mid.n))
        x = mid.get(q)
        inst = v.instances(q, r, a, b)
        # the set chosen for a rise, as an event number
        chosen = chosen_index(x)
        ri = rise_index(mid, q)
        v.ensure("each interval starts at a rise", z3.And(rng(ri), K(ri) == 0, equal(x.left, STime(T(ri)))))
        v.ensure("and ends at a set", z3.And(rng(chosen), K(chosen) == 2, equal(x.right, STime(T(chosen)))))
        v.ensure("after the rise, within twice the maximum access time", z3.And(T(chosen) > T(ri), T(chosen) < T(ri) + L))
        v.ensure("with no other set between", z3.Not(z3.And(rng(a), K(a) == 2, T(a) > T(ri), T(a) < T(chosen))))
        v.ensure("within the period", z3.And(zb(x.left >= start), zb(x.right <= end)))
        if last is not None:
            v.ensure("the last interval does not overlap", zb(x.right <= last.left))
        if first is not None:
            v.ensure("the first interval does not overlap", zb(first.right <= x.left))
        y = mid.get(r)
        rj = rise_index(mid, r)
        sb = SB(ri, rj)
        if v.check(q < r):
            v.lemma("listed rises are in order", ri < rj)
            v.lemma("a set comes between", z3.And(ri < sb, sb < rj, K(sb) == 2))
            v.lemma("after the first rise and before the second", z3.And(T(ri) < T(sb), T(sb) < T(rj)))
            v.lemma("the first interval ends no later", z3.Not(z3.And(rng(sb), K(sb) == 2, T(sb) > T(ri), T(sb) < T(chosen))))
            v.ensure("in time order without overlap", zb(x.right <= y.left))
            return
    V.vc("visible intervals", body, budget=240)


def rise_index(mid, q):
    e = core.zr(Num(mid.get(q).left.e))
    return arg_of(e)


def time_index(t):
    return arg_of(t.e)


def chosen_index(x):
    return arg_of(x.right.e)


def arg_of(e):
    """event number i when the time is t_event(i)."""
    e = z3.simplify(e)
    if z3.is_app(e) and e.decl().name() == "t_event":
        return e.arg(0)
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return z3.If(e.arg(0), arg_of(e.arg(1)), arg_of(e.arg(2)))
    raise Unsupported("time of another form " + str(e)[:200])


def complete(mid, a, b, rng, K, T, L):
    """rise a with set b in time: a passes the filter of the list (which keeps every passing element, in order)."""
    if mid.base_n is not None and not z3.simplify(mid.base_n).eq(z3.Int("events")):
        raise Unsupported("interval list filtered from another list")
    return z3.Implies(z3.And(rng, K(a) == 0, K(b) == 2, T(b) > T(a), T(b) < T(a) + L), zb(mid.cond(a)))
