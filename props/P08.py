"""P08 nearest element set."""
import math
from datetime import datetime, timedelta
import numpy as np
import z3
from vf.session import Fail, Skip, expect, expect_close
from vf import core, seq, strs, tmodel
from vf.core import Num, zb, zr, equal, Unsupported, ctx
from vf.seq import Seq, FSeq, zi
from vf.tmodel import STime, SkyTime, SSat, SGeo, SGeoList, stime, FIND_EVENTS
from vf.interp import MODELS, SObj
from vf.orb import tle_lines, gen_epoch, epoch_of, TwoLineElements, UTC
from props.P06 import EPOCH, m_twoline, _old
from tatc.schemas import Point
from tatc import constants
from sgp4.api import Satrec
from skyfield.api import EarthSatellite, wgs84

ASSUMPTIONS = ["the epoch of an element set is the function of its lines established by P07",
               "skyfield EarthSatellite.at and find_events: propagation and event search of one element set (assumed correct)"]
US = timedelta(microseconds=2)


# ------------------------------------------------------------------ concrete oracle
def orbit(i):
    return TwoLineElements(tle=[l for s in i["sets"] for l in s])


def tsec(i, k):
    return datetime(2000, 1, 1, tzinfo=UTC) + timedelta(days=k[0], seconds=k[1], microseconds=k[2])


def enc(t):
    d = t - datetime(2000, 1, 1, tzinfo=UTC)
    return [d.days, d.seconds, d.microseconds]


def nearest(eps, t, slack=timedelta(0)):
    m = min(abs(t - e) for e in eps)
    return {k for k, e in enumerate(eps) if abs(t - e) <= m + slack}


def check_closest(i):
    o = orbit(i)
    eps = [o.get_epoch(k) for k in range(len(i["sets"]))]
    ts = [tsec(i, k) for k in i["times"]]
    for t in ts:
        g = o.get_closest_tle_index(t)
        expect(g in nearest(eps, t), f"index {g} for {t}, epochs {eps}", "index")
    gs = o.get_closest_tle_index(ts)
    expect(len(gs) == len(ts), "one index per time", "count")
    for g, t in zip(gs, ts):
        expect(g in nearest(eps, t), f"index {g} for {t} in a list, epochs {eps}", "index")


def check_partition(i):
    o = orbit(i)
    eps = [o.get_epoch(k) for k in range(len(i["sets"]))]
    a, b = sorted(tsec(i, k) for k in i["times"][:2])
    if a == b:
        raise Skip()
    ts, ks = o.partition_by_tle_index(a, b)
    expect(ts[0] == a and ts[-1] == b, f"partition {ts} of {a}..{b}", "ends")
    expect(all(x <= y for x, y in zip(ts, ts[1:])), f"partition {ts} out of order", "order")
    expect(len(ks) >= len(ts) - 1, "one index per piece", "count")
    for x, y, k in zip(ts, ts[1:], ks):
        for f in (0.0, 0.001, 0.5, 0.999, 1.0):
            t = x + (y - x) * f
            expect(k in nearest(eps, t, 2 * US), f"piece {x}..{y} uses set {k}, epochs {eps}, at {t} nearest {nearest(eps, t)}", "piece")


def check_track(i):
    o = orbit(i)
    eps = [o.get_epoch(k) for k in range(len(i["sets"]))]
    ts = [tsec(i, k) for k in i["times"]]
    sat = [EarthSatellite(*s) for s in i["sets"]]

    def ok(p, v, t):
        best = math.inf
        for k in nearest(eps, t):
            g = sat[k].at(constants.timescale.from_datetime(t))
            if np.isnan(g.position.m).any():
                return np.isnan(p).any()
            best = min(best, np.abs(g.position.m - p).max() + 100 * np.abs(g.velocity.m_per_s - v).max())
        return best < 1.0
    tr = o.get_orbit_track(ts, try_repeat=False)
    expect(tr.position.m.shape == (3, len(ts)), "one position per time", "count")
    for k, t in enumerate(ts):
        expect(ok(tr.position.m[:, k], tr.velocity.m_per_s[:, k], t), f"position at {t} is not that of the nearest set of {eps}", "track")
        expect(abs((tr.t[k].utc_datetime() - t).total_seconds()) < 1e-3, "time stamp", "stamp")
    t = ts[0]
    tr = o.get_orbit_track(t, try_repeat=False)
    expect(ok(tr.position.m, tr.velocity.m_per_s, t), f"position at single time {t} is not that of the nearest set of {eps}", "track")


def check_events(i):
    o = orbit(i)
    eps = [o.get_epoch(k) for k in range(len(i["sets"]))]
    a, b = sorted(tsec(i, k) for k in i["times"][:2])
    if b - a < timedelta(minutes=1):
        raise Skip()
    b = min(b, a + timedelta(days=4))
    pt = Point(id=0, latitude=i["lat"], longitude=i["lon"])
    ts, es = o.get_observation_events(pt, a, b, i["el"], try_repeat=False)
    topos = wgs84.latlon(pt.latitude, pt.longitude, pt.elevation)
    cuts = sorted({e + (f - e) / 2 for e, f in zip(eps, eps[1:])})
    cuts = [a] + [c for c in cuts if a < c < b] + [b]
    exp = []
    for x, y in zip(cuts, cuts[1:]):
        k = min(nearest(eps, x + (y - x) / 2))
        s = EarthSatellite(*i["sets"][k])
        tt, ee = s.find_events(topos, constants.timescale.from_datetime(x), constants.timescale.from_datetime(y), i["el"])
        exp += [(t.utc_datetime(), int(e)) for t, e in zip(tt, ee)]
    got = [(t.utc_datetime(), int(e)) for t, e in zip(ts, es)] if len(es) else []
    if len(set(eps)) < len(eps):
        return  # equal epochs: either set may be used
    near = lambda t: any(abs(t - c) < timedelta(seconds=0.01) for c in cuts)
    g2, e2 = [x for x in got if not near(x[0])], [x for x in exp if not near(x[0])]
    expect(len(g2) == len(e2), f"{len(g2)} events, expected {len(e2)} from the nearest sets over {a}..{b} (epochs {eps})", "events")
    for (t, e), (u, f) in zip(g2, e2):
        expect(e == f and abs(t - u) < timedelta(seconds=0.05), f"event {e} at {t}, expected {f} at {u}", "events")


def gen(r, leo=False, nmax=5):
    n = r.choice([2, 2, 3, 4, nmax])
    t = epoch_of(gen_epoch(r))
    if not 1970 < t.year < 2040:
        t = datetime(2021, 3, 4, 5, 6, 7, tzinfo=UTC)
    sets, eps = [], []
    for k in range(n):
        f = dict(cat="25544", incl=r.uniform(20, 160), ecc=r.choice([1e-3, 0.01]), n=r.uniform(13.5, 15.2)) if leo else dict(cat="25544")
        sets.append(tle_lines(r, t, f, rich=not leo))
        eps.append(t)
        if r.random() > 0.1:
            t = t + timedelta(seconds=r.choice([60, 3600, 43200, 86400, 86400 * 3, r.randrange(1, 10**6)]))
    o = TwoLineElements(tle=[l for s in sets for l in s])
    eps = [o.get_epoch(k) for k in range(n)]
    cand = []
    for a, b in zip(eps, eps[1:]):
        m = a + (b - a) / 2
        cand += [a, b, m, m + US, m - US, a + (b - a) * r.random(), m + timedelta(seconds=r.uniform(-600, 600))]
    cand += [eps[0] - timedelta(seconds=r.randrange(1, 10**5)), eps[-1] + timedelta(seconds=r.randrange(1, 10**5))]
    r.shuffle(cand)
    return dict(sets=sets, times=[enc(c) for c in cand[:r.randrange(2, 9)]])


def gen_ev(r):
    g = gen(r, leo=True, nmax=3)
    g.update(lat=r.uniform(-85, 85), lon=r.uniform(-180, 180), el=r.choice([0.0, 5.0, 10.0, 40.0, 80.0]))
    o = orbit(g)
    eps = [o.get_epoch(k) for k in range(len(g["sets"]))]
    span = max(eps[-1] - eps[0], timedelta(hours=3))
    a = eps[0] - timedelta(hours=r.uniform(0, 3)) + span * r.choice([0, 0.2, 0.6])
    g["times"] = [enc(a), enc(a + r.choice([0.5, 1.0]) * min(span + timedelta(hours=6), timedelta(days=3)))]
    return g


def concrete(C):
    C.cases("closest index", gen, check_closest, 300, "2-5 sets, times at epochs, midpoints +-2us, between, outside", share=0.4)
    C.cases("partition", gen, check_partition, 300, "same", share=0.4)
    C.cases("orbit track", gen, check_track, 100, "same", share=0.5)
    C.cases("events", gen_ev, check_events, 40, "low orbits, periods spanning several epochs", share=0.9)


# ------------------------------------------------------------------ deductive
EPK = z3.Function("epoch_of_set", z3.IntSort(), z3.RealSort())


def m_epoch(interp, a, k):
    """callee contract of get_epoch (proved first): the epoch of set i."""
    i = a[1] if len(a) > 1 else k.get("tle_i", 0)
    return STime(EPK(zi(i)))


def sym_sets(v, contract=True):
    from vf.interp import CONTRACTS
    n = v.int("sets", ge=1)
    o = SObj(TwoLineElements, dict(type="tle", tle=strs.lines(z3.simplify(2 * n.e))))
    k, l = z3.Ints("ek el")
    if contract:
        CONTRACTS["tatc.schemas.orbit.TwoLineElements.get_epoch"] = m_epoch
    # the class invariant established by P06: epochs do not go backwards (transitive form)
    v.assume(z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k <= l, l < n.e), EPK(k) <= EPK(l)), patterns=[z3.MultiPattern(EPK(k), EPK(l))]))
    return n, o, EPK


def dist(t, e):
    return z3.If(t - e >= 0, t - e, e - t)


def is_nearest(t, idx, ep, n, j):
    return z3.Implies(z3.And(j >= 0, j < n.e), dist(t, ep(idx)) <= dist(t, ep(j)))


def tie_late(t, idx, ep, n, j):
    """on a tie the later epoch is taken (callers rely on it when a period starts at a midpoint)."""
    return z3.Implies(z3.And(j >= 0, j < n.e, ep(j) > ep(idx)), dist(t, ep(idx)) < dist(t, ep(j)))


def closest_contract(n, ep, one, vec, tie):
    """callee contract of get_closest_tle_index (proved below)."""
    def f(interp, a, k):
        t = a[1] if len(a) > 1 else k.get("at_times")
        if isinstance(t, Seq) and vec:
            ctx.fresh_n += 1
            R = z3.Function(f"closest!{ctx.fresh_n}", z3.IntSort(), z3.IntSort())
            j, q = seq.gvar("j"), seq.gvar("q")
            core.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < t.n), z3.And(R(q) >= 0, R(q) < n.e)), patterns=[R(q)]))
            core.assume(z3.ForAll([q, j], z3.Implies(z3.And(q >= 0, q < t.n), is_nearest(t.get(q).e, R(q), ep, n, j)), patterns=[z3.MultiPattern(R(q), EPK(j))]))
            return Seq(t.n, lambda j: Num(R(j)))
        if not isinstance(t, STime) or not one:
            return NotImplemented
        r = core.fresh("closest", "int")
        j = seq.gvar("j")
        core.assume(z3.And(r >= 0, r < n.e))
        core.assume(z3.ForAll([j], is_nearest(t.e, r, ep, n, j), patterns=[EPK(j)]))
        if tie:
            core.assume(z3.ForAll([j], tie_late(t.e, r, ep, n, j), patterns=[EPK(j)]))
        return Num(r)
    return f


def deductive(V):
    MODELS[Satrec.twoline2rv] = m_twoline
    old_find = FIND_EVENTS[0]
    try:
        def body_epoch(v):
            n, o, _ = sym_sets(v, False)
            i = v.int("tle_i", ge=0)
            v.assume(i < n)
            r = v.call(TwoLineElements.get_epoch, o, i)
            v.ensure("epoch of the lines of that set", equal(r, STime(EPOCH(2 * i.e, 2 * i.e + 1))))
        V.vc("get_epoch", body_epoch)

        def body_scalar(v):
            n, o, ep = sym_sets(v)
            t = stime(v, "t")
            r = v.call(TwoLineElements.get_closest_tle_index, o, t)
            r = zi(r)
            v.ensure("index in range", z3.And(r >= 0, r < n.e))
            j = z3.Int("j")
            v.ensure("no other epoch is nearer", is_nearest(t.e, r, ep, n, j))
            v.ensure("original lines kept", o.fields["tle"].n == 2 * n.e)
        r1 = V.vc("get_closest_tle_index, one time", body_scalar)

        def body_tie(v):
            n, o, ep = sym_sets(v)
            t = stime(v, "t")
            r = zi(v.call(TwoLineElements.get_closest_tle_index, o, t))
            v.ensure("ties go to the later epoch", tie_late(t.e, r, ep, n, z3.Int("j")))
        rt = V.vc("get_closest_tle_index, ties", body_tie)

        def body_vec(v):
            n, o, ep = sym_sets(v)
            m = v.int("times", ge=0)
            T = z3.Function("time_at", z3.IntSort(), z3.RealSort())
            ts = Seq(m.e, lambda j: STime(T(j)))
            r = v.call(TwoLineElements.get_closest_tle_index, o, ts)
            v.ensure("one index per time", (r.n if isinstance(r, Seq) else len(r)) == m.e)
            q, j = z3.Ints("q j")
            v.assume(z3.And(q >= 0, q < m.e))
            x = zi(r.get(q))
            v.ensure("index in range", z3.And(x >= 0, x < n.e))
            v.ensure("no other epoch is nearer", is_nearest(T(q), x, ep, n, j))
        r2 = V.vc("get_closest_tle_index, list of times", body_vec)

        CL = "tatc.schemas.orbit.TwoLineElements.get_closest_tle_index"
        PT = "tatc.schemas.orbit.TwoLineElements.partition_by_tle_index"

        ok = [r is not None and r.proved for r in (r1, r2, rt)]

        def with_contract(v):
            from vf.interp import CONTRACTS
            n, o, ep = sym_sets(v)
            if ok[0] or ok[1]:
                CONTRACTS[CL] = closest_contract(n, ep, *ok)
            return n, o, ep

        def body_part(v):
            n, o, ep = with_contract(v)
            a, b = stime(v, "start"), stime(v, "end")
            v.assume(a <= b)
            ts, ks = v.call(TwoLineElements.partition_by_tle_index, o, a, b)
            ts = ts if isinstance(ts, Seq) else seq.of_list(ts)
            ks = ks if isinstance(ks, Seq) else seq.of_list(ks)
            v.ensure("at least one piece", ts.n >= 2)
            v.ensure("an index for every piece", ks.n >= ts.n - 1)
            v.ensure("starts with the period", equal(ts.get(z3.IntVal(0)), a))
            v.ensure("ends with the period", equal(ts.get(z3.simplify(ts.n - 1)), b))
            p, j = z3.Ints("p j")
            t = z3.Real("t")
            v.assume(z3.And(p >= 0, p < ts.n - 1))
            lo, hi = ts.get(p), ts.get(p + 1)
            # facts of the real partition used as cuts
            v.ensure("pieces adjoin in order", lo <= hi)
            v.assume(z3.And(t >= lo.e, t <= hi.e))
            x = zi(ks.get(p))
            v.ensure("index in range", z3.And(x >= 0, x < n.e))
            # ground instances of the hypotheses around the piece, for the solver
            sy = core.symbols_in(ctx.formulas())
            pick = lambda pre, ar: [d for k, d in sy.items() if k.startswith(pre) and d.arity() == ar]
            Z = z3.IntVal(0)
            cl = [d() for d in pick("closest", 0)]
            idx, ranks, poss = [Z, p, p - 1, n.e - 2, n.e - 1], [], [Z, n.e - 1, n.e - 2]
            for s, rk in zip(pick("fsrc!", 1), pick("frank!", 1)):
                for a in (p, p - 1, Z):
                    for d in (-1, 0, 1):
                        idx.append(s(a) + d)
                    poss += [s(a), s(a) + 1, s(a) + 2]
                ranks += [p, p - 1, Z] + [rk(s(a) + d) for a in (p, p - 1) for d in (-1, 1)]
            for q in pick("iperm!", 1):
                for y in [j] + cl:
                    idx += [y, q(y), q(y) - 1]
                    poss += [q(y), q(y) - 1, q(y) + 1]
                    ranks += [rk(q(y)) for rk in pick("frank!", 1)] + [rk(q(y) - 1) for rk in pick("frank!", 1)]
                pm = pick("perm!", 1)[0]
                for c in cl:
                    u = v.crossing(q(c), q(j), lambda k: ep(pm(k)) > ep(c))
                    poss += [u, u - 1]
                    ranks += [rk(u - 1) for rk in pick("frank!", 1)]
                    cl = cl + [pm(u), pm(u - 1)]
                idx += poss
            for rk in pick("frank!", 1):
                ranks += [rk(Z), rk(n.e - 2)]
            pairs = [(a, b) for a in poss for b in poss] + [(a, b) for a in ranks for b in ranks]
            hs = v.instances(*(idx + ranks + cl + pairs))
            for nm, c in (("first", p == 0), ("inner", z3.And(p > 0, p < ts.n - 2)), ("last", z3.And(p > 0, p == ts.n - 2))):
                v.ensure(f"the {nm} piece's set is nearest throughout", z3.Implies(c, is_nearest(t, x, ep, n, j)), hints=hs)
        V.vc("partition_by_tle_index", body_part)

        def body_track1(v):
            n, o, ep = with_contract(v)
            v.assume(n > 1)
            t = stime(v, "t")
            g = v.call(TwoLineElements.get_orbit_track, o, t, try_repeat=v.bool("try_repeat"))
            j = z3.Int("j")
            a, b = g.sat.l1.j, g.sat.l2.j
            v.ensure("lines of one set", z3.And(b == a + 1, a % 2 == 0, a >= 0, b < 2 * n.e))
            v.ensure("nearest set", is_nearest(t.e, a / 2, ep, n, j))
            v.ensure("propagated to the requested time", equal(g._t, SkyTime(t)))
            v.ensure("stamped with the requested time", equal(g.stamp, SkyTime(t)))
        V.vc("get_orbit_track of several sets, one time", body_track1)

        def body_trackn(v):
            n, o, ep = with_contract(v)
            v.assume(n > 1)
            m = v.int("times", ge=1)
            T = z3.Function("time_at", z3.IntSort(), z3.RealSort())
            ts = Seq(m.e, lambda j: STime(T(j)))
            g = v.call(TwoLineElements.get_orbit_track, o, ts, try_repeat=v.bool("try_repeat"))
            if not isinstance(g, SGeoList):
                raise Unsupported("orbit track of another shape")
            q, j = z3.Ints("q j")
            v.ensure("one state per time", g.p.n == m.e)
            v.assume(z3.And(q >= 0, q < m.e))
            s = g.state(q)
            a, b = s.sat.l1.j, s.sat.l2.j
            v.ensure("lines of one set", z3.And(b == a + 1, a % 2 == 0, a >= 0, b < 2 * n.e))
            v.ensure("nearest set", is_nearest(T(q), a / 2, ep, n, j))
            v.ensure("propagated to the requested time", equal(s._t, SkyTime(STime(T(q)))))
            v.ensure("stamped with the requested time", equal(g.stamp.t.get(q), STime(T(q))))
        V.vc("get_orbit_track of several sets, list of times", body_trackn)

        # events: each search uses the partition's set over exactly the piece
        def body_events(v):
            n, o, ep = with_contract(v)
            v.assume(n > 1)
            a, b = stime(v, "start"), stime(v, "end")
            v.assume(a <= b)
            calls = []
            NE = z3.Function("n_events", z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.IntSort())
            TE = z3.Function("t_event", z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.RealSort())
            KE = z3.Function("k_event", z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.IntSort())
            el = v.real("elevation")
            lat, lon, hh = v.real("lat"), v.real("lon"), v.real("h")

            def find(sat, topos, t0, t1, alt):
                core.oblig("search with the requested elevation", equal(alt, el))
                la, lo_, h_ = topos.args
                core.oblig("search at the point", z3.And(equal(la, lat), equal(lo_, lon), equal(h_, hh)))
                l1, l2 = sat.l1.j, sat.l2.j
                core.oblig("lines of one set", z3.And(l2 == l1 + 1, l1 % 2 == 0))
                cnt = NE(l1 / 2, t0.t.e, t1.t.e)
                core.assume(cnt >= 0)
                x, y, z = l1 / 2, t0.t.e, t1.t.e
                calls.append((x, y, z))
                return (SkyTime(Seq(cnt, lambda j: STime(TE(x, y, z, j)), True)), Seq(cnt, lambda j: Num(KE(x, y, z, j)), True))
            FIND_EVENTS[0] = find
            parts = {}

            def part_contract(interp, aa, kk):
                st, en = aa[1:3]
                core.oblig("partition of the period", z3.And(equal(st, a), equal(en, b)))
                P = z3.Int("pieces")
                TT = z3.Function("part_time", z3.IntSort(), z3.RealSort())
                KK = z3.Function("part_set", z3.IntSort(), z3.IntSort())
                core.assume(P >= 1)
                k = z3.Int("pk")
                core.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= P), z3.And(KK(k) >= 0, KK(k) < n.e)), patterns=[KK(k)]))
                parts.update(P=P, T=TT, K=KK)
                return (Seq(P + 1, lambda j: STime(TT(j))), Seq(P + 1, lambda j: Num(KK(j))))
            from vf.interp import CONTRACTS
            CONTRACTS[PT] = part_contract
            pt = SObj(Point, dict(id=0, latitude=lat, longitude=lon, elevation=hh))
            ts, es = v.call(TwoLineElements.get_observation_events, o, pt, a, b, el, try_repeat=v.bool("try_repeat"))
            if not parts:
                raise Unsupported("partition not used")
            P, TT, KK = parts["P"], parts["T"], parts["K"]
            p, q, k = z3.Ints("p q k")
            inp = z3.And(p >= 0, p < P, TT(p) < TT(p + 1))
            cnt = lambda p: NE(KK(p), TT(p), TT(p + 1))
            if isinstance(ts, SkyTime) and isinstance(ts.t, Seq):
                T = ts.t
                if isinstance(T, seq.FlatSeq) and isinstance(es, seq.FlatSeq):
                    v.ensure("as many pieces", z3.And(T.outer_n == P, es.outer_n == P))
                    v.assume(inp)
                    v.ensure("every event of every piece is listed in order", z3.And(T.inner(p).n == cnt(p), es.inner(p).n == cnt(p)))
                    v.assume(z3.And(q >= 0, q < cnt(p)))
                    v.ensure("event times of the piece", equal(T.inner(p).get(q), STime(TE(KK(p), TT(p), TT(p + 1), q))))
                    v.ensure("event kinds of the piece", equal(es.inner(p).get(q), Num(KE(KK(p), TT(p), TT(p + 1), q))))
                else:
                    raise Unsupported("event table of another shape")
            else:
                # the empty table
                v.assume(inp)
                v.ensure("empty only if no piece has events", cnt(p) <= 0)
        V.vc("get_observation_events of several sets", body_events)
    finally:
        MODELS[Satrec.twoline2rv] = _old
        FIND_EVENTS[0] = old_find
