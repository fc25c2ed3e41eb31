"""P16 latency of observations."""
from datetime import datetime, timedelta, timezone
import pandas as pd
import geopandas as gpd
import z3
from shapely import geometry as geo
from vf.session import Fail, Skip, expect, expect_close
from vf import core, seq, tables
from vf.core import Num, equal, Unsupported, SBool
from vf.tmodel import STime, SDelta
from vf.tables import TFrame, CFrame, Maybe, maybe, WMean, SecondsOf
from tatc.analysis import latency

UTC = timezone.utc
T0 = datetime(2022, 3, 1, tzinfo=UTC)
ASSUMPTIONS = ["pandas/geopandas table operations (sort_values, merge_asof, rename, loc) as assumed in vf/tables.py; two-table collision suffixes _x/_y"]


def check(i):
    at = lambda s: T0 + timedelta(seconds=s)
    obs = gpd.GeoDataFrame([dict(point_id=k, geometry=geo.Point(k % 90, -(k % 45)), satellite=s, instrument=f"i{k}", start=at(a), end=at(b), epoch=at((a + b) / 2), sat_alt=40.0 + k, sat_az=3.0 * k) for k, (s, a, b) in enumerate(i["obs"])], crs="EPSG:4326")
    dl = gpd.GeoDataFrame([dict(station=f"g{k}", geometry=geo.Point(-(k % 90), k % 45), satellite=s, start=at(a), end=at(b), epoch=at((a + b) / 2)) for k, (s, a, b) in enumerate(i["down"])], crs="EPSG:4326")
    if i["index"] == "rev":
        obs.index, dl.index = list(obs.index)[::-1], list(dl.index)[::-1]
    elif i["index"] == "same":
        obs.index, dl.index = [0] * len(obs), [0] * len(dl)
    out = latency.compute_latencies(obs, dl)
    rows = [r for _, r in out.iterrows()]
    expect(len(rows) == len(i["obs"]), f"{len(rows)} rows for {len(i['obs'])} observations", "count")
    expect(list(out.index) == list(range(len(out))), "row labels", "index")
    expect(all(a.observed <= b.observed for a, b in zip(rows, rows[1:])), "rows not in observation order", "order")
    expect(sorted(r.point_id for r in rows) == list(range(len(rows))), "an observation is missing or repeated", "rows")
    for r in rows:
        k = r.point_id
        s, a, b = i["obs"][k]
        expect(r.satellite == s and r.instrument == f"i{k}" and r.observed == at((a + b) / 2) and r.geometry.equals(geo.Point(k % 90, -(k % 45))), f"row of observation {k}: {r.satellite} {r.instrument} {r.observed} {r.geometry}", "labels")
        expect(abs(r.sat_alt - 40 - k) < 1e-9 and abs(r.sat_az - 3 * k) < 1e-9, f"direction of observation {k}", "labels")
        ok = [(x, y, m) for m, (t, x, y) in enumerate(i["down"]) if t == s and x >= b]
        what = f"observation {s} {a}..{b} with downlinks {[d for d in i['down'] if d[0] == s]}"
        if not ok:
            expect(pd.isna(r.station) and pd.isna(r.downlinked) and pd.isna(r.latency), f"{what}: {r.station} {r.downlinked} {r.latency}, expected none", "missing")
            continue
        x0 = min(x for x, _, _ in ok)
        cand = [(f"g{m}", at((x + y) / 2)) for x, y, m in ok if x == x0]
        expect(not pd.isna(r.downlinked), f"{what}: no downlink, expected one of {cand}", "first")
        expect((r.station, r.downlinked.to_pydatetime()) in cand, f"{what}: {r.station} {r.downlinked}, expected one of {cand}", "first")
        expect(r.latency == r.downlinked - r.observed, f"{what}: latency {r.latency}", "latency")


def concrete(C):
    def gen(r):
        ns = r.choice([1, 1, 2, 3])
        g = r.choice([1, 60, 600])
        H = r.choice([3, 10, 100])
        mk = lambda extra: [f"s{r.randrange(ns + extra)}", g * r.randrange(0, H), 0]
        obs = [mk(r.choice([0, 0, 1])) for _ in range(r.choice([1, 2, 5, 15]))]
        dn = [mk(r.choice([0, 0, 1])) for _ in range(r.choice([1, 2, 5, 15]))]
        for x in obs + dn:
            x[2] = x[1] + g * r.choice([0, 1, 2, 5, 30])
        return dict(obs=obs, down=dn, index=r.choice(["range", "rev", "same"]))
    C.cases("latencies", gen, check, 300, "1..15 observations and downlinks of 1..4 satellites in any order, ties and touching times included")


# ------------------------------------------------------------------ deductive
def deductive(V):
    I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

    def body(v):
        n, m = v.int("observations", ge=1).e, v.int("downlinks", ge=1).e
        num = lambda f: (lambda j: Num(f(j)))
        tm = lambda f: (lambda j: STime(f(j)))
        PID, G, SAT, INS = [z3.Function(x, I, I) for x in ("pid", "geom", "sat", "ins")]
        S, E, P, AL, AZ = [z3.Function(x, I, R) for x in ("o_start", "o_end", "o_epoch", "o_alt", "o_az")]
        ST, DG, DSAT = [z3.Function(x, I, I) for x in ("station", "d_geom", "d_sat")]
        DS, DE, DP = [z3.Function(x, I, R) for x in ("d_start", "d_end", "d_epoch")]
        obs = TFrame(n, dict(point_id=num(PID), geometry=num(G), satellite=num(SAT), instrument=num(INS), start=tm(S), end=tm(E), epoch=tm(P), sat_alt=num(AL), sat_az=num(AZ)))
        dn = TFrame(m, dict(station=num(ST), geometry=num(DG), satellite=num(DSAT), start=tm(DS), end=tm(DE), epoch=tm(DP)))
        del tables.SORTS[:]
        out = v.call(latency.compute_latencies, obs, dn)
        if not isinstance(out, TFrame) or not hasattr(out, "perm"):
            raise Unsupported("result of another shape")
        k, k2, d = z3.Ints("k k2 d")
        v.ensure("as many rows as observations", out.n == n)
        v.assume(z3.And(d >= 0, d < m))
        v.assume(z3.And(k >= 0, k <= k2, k2 < n))
        v.ensure("in order of observation", core.zb(out.cols["observed"](k) <= out.cols["observed"](k2)))
        # row k of the result is observation o(k): the composition of the two sorts
        inner = out.base
        if not hasattr(inner, "perm") or not hasattr(inner, "match"):
            raise Unsupported("rows of another shape")
        r = lambda j: inner.perm(out.perm(j))
        back = lambda j: out.inv(inner.inv(j))
        o = z3.Int("o")
        v.assume(z3.And(o >= 0, o < n))
        v.ensure("every observation appears once", z3.And(back(o) >= 0, back(o) < n, r(back(o)) == o, z3.Implies(r(k) == r(k2), k == k2)))
        for c, F, w in (("point_id", PID, Num), ("geometry", G, Num), ("satellite", SAT, Num), ("instrument", INS, Num), ("sat_alt", AL, Num), ("sat_az", AZ, Num), ("observed", P, STime)):
            v.ensure(f"{c} of the observation", equal(out.cols[c](k), w(F(r(k)))))
        M, N = inner.match
        x = out.perm(k)
        right = inner.right if hasattr(inner, "right") else None
        st, dl, la = [maybe(out.cols[c](k)) for c in ("station", "downlinked", "latency")]
        can = lambda d: z3.And(DSAT(d) == SAT(r(k)), E(r(k)) <= DS(d))
        dsort = [s for s in tables.SORTS if s[0].eq(m)]
        sorts = [t for t in tables.SORTS if z3.simplify(t[0]).eq(z3.simplify(m))]
        if len(sorts) != 1:
            raise Unsupported("downlinks not sorted once")
        _, dperm, dinv = sorts[0]
        hit = dperm(M(x))
        hints = v.instances(x, k, (x, dinv(d)), d, dinv(d), M(x))
        v.ensure("matched whenever a later contact exists", z3.Implies(can(d), z3.Not(dl.null)), hints=hints)
        v.ensure("missing together", z3.And(st.null == dl.null, la.null == dl.null))
        v.ensure("the contact is of the same satellite, not before the end", z3.Implies(z3.Not(dl.null), z3.And(hit >= 0, hit < m, can(hit))), hints=hints)
        v.ensure("and no contact is earlier", z3.Implies(z3.And(z3.Not(dl.null), can(d)), DS(hit) <= DS(d)), hints=hints)
        v.ensure("station and downlink time are the contact's", z3.Implies(z3.Not(dl.null), z3.And(equal(st.val, Num(ST(hit))), equal(dl.val, STime(DP(hit))))))
        v.ensure("latency is downlink minus observation", z3.Implies(z3.Not(dl.null), equal(la.val, SDelta(DP(hit) - P(r(k))))))
    V.vc("compute_latencies", body)
