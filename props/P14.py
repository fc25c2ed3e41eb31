"""P14 aggregation of overlapping observations."""
from datetime import datetime, timedelta, timezone
import pandas as pd
import geopandas as gpd
import z3
from shapely import geometry as geo
from vf.session import Fail, Skip, expect, expect_close
from vf import core, seq, tables
from vf.core import Num, equal, Unsupported
from vf.tmodel import STime, SDelta
from vf.tables import TFrame, CFrame
from tatc.analysis import coverage

UTC = timezone.utc
T0 = datetime(2022, 3, 1, tzinfo=UTC)
ASSUMPTIONS = ["pandas/geopandas table operations (groupby, sort_values, shift, cummax, cumsum, dissolve, concat) as assumed in vf/tables.py", "the union of equal points is that point; the mean of timestamps is pandas'"]


def table(i):
    cols = ["point_id", "geometry", "satellite", "instrument", "start", "end", "epoch", "sat_alt", "sat_az"]
    rows = []
    for p, s, ins, a, d in i["rows"]:
        st, en = T0 + timedelta(seconds=a), T0 + timedelta(seconds=a + d)
        rows.append(dict(point_id=p, geometry=geo.Point(p * 3.5 - 100, (p * 7) % 60, 10.0 * (p % 3)), satellite=s, instrument=ins, start=st, end=en, epoch=st + (en - st) / 2, sat_alt=50.0, sat_az=10.0))
    g = gpd.GeoDataFrame(rows, crs="EPSG:4326")
    if i.get("index") == "dup":
        g.index = [k // 2 for k in range(len(g))]
    elif i.get("index") == "rev":
        g.index = list(range(len(g)))[::-1]
    return g


def check(i):
    if not i["rows"]:
        g = coverage._get_empty_coverage_frame(True) if hasattr(coverage, "_get_empty_coverage_frame") else None
        if g is None:
            raise Skip()
        expect(len(coverage.aggregate_observations(g)) == 0, "rows from an empty table", "empty")
        return
    g = table(i)
    got = coverage.aggregate_observations(g)
    expect(list(got.index) == list(range(len(got))), f"row labels {list(got.index)}", "index")
    for c in ("point_id", "geometry", "satellite", "instrument", "start", "end", "access", "revisit"):
        expect(c in got.columns, f"no column {c}", "columns")
    for p in sorted({r[0] for r in i["rows"]}):
        mine = sorted([r for r in i["rows"] if r[0] == p], key=lambda r: (r[3], r[3] + r[4]))
        groups = []
        for r in mine:
            if groups and r[3] <= max(x[3] + x[4] for x in groups[-1]):
                groups[-1].append(r)
            else:
                groups.append([r])
        rows = sorted([r for _, r in got[got.point_id == p].iterrows()], key=lambda r: r.start)
        what = f"point {p} with {mine}"
        expect(len(rows) == len(groups), f"{what}: {len(rows)} merged intervals, expected {len(groups)}", "count")
        prev = None
        for r, G in zip(rows, groups):
            a, b = T0 + timedelta(seconds=G[0][3]), T0 + timedelta(seconds=max(x[3] + x[4] for x in G))
            expect(r.start == a and r.end == b, f"{what}: merged {r.start}..{r.end}, expected {a}..{b}", "interval")
            expect(r.access == b - a, f"{what}: access {r.access}", "access")
            expect(pd.isna(r.revisit) if prev is None else r.revisit == a - prev, f"{what}: revisit {r.revisit}, expected {None if prev is None else a - prev}", "revisit")
            # rows starting together may be listed in any order, but the same one in both lists
            names = list(zip(r.satellite.split(", "), r.instrument.split(", ")))
            expect(len(names) == len(G) and len(r.instrument.split(", ")) == len(G), f"{what}: lists {r.satellite} / {r.instrument}", "names")
            k = 0
            while k < len(G):
                e = k
                while e < len(G) and G[e][3] == G[k][3]:
                    e += 1
                expect(sorted(names[k:e]) == sorted((x[1], x[2]) for x in G[k:e]), f"{what}: names {names}, expected {[(x[1], x[2]) for x in G]}", "names")
                k = e
            m = T0 + timedelta(seconds=sum(x[3] + x[4] / 2 for x in G) / len(G))
            expect("epoch" in got.columns and abs((r.epoch - m).total_seconds()) < 1e-5, f"{what}: epoch {r.get('epoch')}, expected the mean {m}", "epoch")
            q = geo.Point(p * 3.5 - 100, (p * 7) % 60)
            expect(r.geometry.geom_type == "Point" and abs(r.geometry.x - q.x) < 1e-9 and abs(r.geometry.y - q.y) < 1e-9, f"{what}: located at {r.geometry}", "location")
            prev = b
    expect(set(got.point_id) <= {r[0] for r in i["rows"]}, "rows of unknown points", "points")


def concrete(C):
    def gen(r):
        n = r.choice([0, 1, 2, 3, 5, 8, 15, 30])
        npts = r.choice([1, 1, 2, 4])
        mode = r.choice(["dense", "sparse", "nested", "touch", "ties"])
        rows = []
        for k in range(n):
            if mode == "dense":
                a, d = r.randrange(0, 2000), r.randrange(0, 300)
            elif mode == "sparse":
                a, d = r.randrange(0, 500000), r.randrange(1, 600)
            elif mode == "nested":
                c, w = r.choice([500, 3000, 9000]), r.randrange(0, 900)
                a, d = c - r.randrange(0, w + 1), w
            elif mode == "touch":
                a, d = 60 * r.randrange(0, 20), 60 * r.randrange(0, 4)
            else:
                a, d = r.choice([0, 100, 200]), r.choice([0, 50, 99, 100, 101, 300])
            if r.random() < 0.1:
                a += r.choice([0.001, 0.25])
            rows.append([r.choice([0, 3, 7, 12][:npts]) if npts > 1 else 5, f"s{r.randrange(4)}", f"i{r.randrange(3)}", a, d])
        r.shuffle(rows)
        return dict(rows=rows, index=r.choice(["range", "range", "rev", "dup"]))
    C.cases("tables", gen, check, 260, "0..30 observations of 1..4 points: dense, sparse, nested, touching, equal starts; any order and labelling")


# ------------------------------------------------------------------ deductive
def deductive(V):
    I, R = z3.IntSort(), z3.RealSort()

    def body(v):
        n = v.int("rows", ge=1).e
        PID, SAT, INS, G = [z3.Function(x, I, I) for x in ("pid", "sat", "ins", "geom")]
        S, E, P = [z3.Function(x, I, R) for x in ("start_of", "end_of", "epoch_of")]
        r = seq.gvar("r")
        v.assume(z3.ForAll([r], S(r) <= E(r), patterns=[S(r)]))
        v.assume(z3.ForAll([r], S(r) <= E(r), patterns=[E(r)]))
        t = lambda f: (lambda j: STime(f(j)))
        k = lambda f: (lambda j: Num(f(j)))
        fr = TFrame(n, dict(point_id=k(PID), geometry=k(G), satellite=k(SAT), instrument=k(INS), start=t(S), end=t(E), epoch=t(P)))
        del tables.RUNNING[:]
        out = v.call(coverage.aggregate_observations, fr)
        if not isinstance(out, CFrame) or not hasattr(fr, "last_grouping"):
            raise Unsupported("result of another shape")
        g = fr.last_grouping
        v.ensure("a table per point", out.outer_n == g.m)
        v.ensure("rows renumbered", z3.BoolVal(out.index_ == "range"))
        # one point p, its merged rows
        p, h, h2, a, b = z3.Ints("p h h2 a b")
        v.assume(z3.And(p >= 0, p < g.m))
        f = out.inner(p)
        d = f.groups
        if d is None or not hasattr(f, "base") or not hasattr(f.base, "perm"):
            raise Unsupported("merged rows of another shape")
        perm, inv = f.base.perm, f.base.inv
        row = lambda h, q: g.row(p, perm(d.row(h, q)))          # base row of member q of merged row h
        start, end = lambda x: S(g.row(p, perm(x))), lambda x: E(g.row(p, perm(x)))
        obs = lambda x: d.keyf(x).e
        inst = lambda *ts: v.instances(p) + [h_ for q in ts for h_ in v.instances(q)]
        m = g.size(p)
        v.assume(z3.And(h >= 0, h < d.m, a >= 0, a < d.size(h)))
        hp = v.instances(p)
        for x in hp:
            core.assume(x) if z3.is_quantifier(x) or True else None
        v.ensure("the merged row is of this point", equal(f.cols["point_id"](h), Num(PID(g.row(p, z3.IntVal(0))))))
        st, en = f.cols["start"](h).e, f.cols["end"](h).e
        v.ensure("covers every member: start", st <= S(row(h, a)))
        v.ensure("covers every member: end", E(row(h, a)) <= en)
        w = z3.Int("w")
        v.ensure("starts at an observation's start", z3.Exists([w], z3.And(w >= 0, w < d.size(h), st == S(row(h, w)))))
        v.ensure("ends at an observation's end", z3.Exists([w], z3.And(w >= 0, w < d.size(h), en == E(row(h, w)))))
        # every observation of the point is a member of some merged row
        i = z3.Int("i")
        v.assume(z3.And(i >= 0, i < m))
        v.ensure("every observation belongs to a merged row", z3.And(d.gi(inv(i)) >= 0, d.gi(inv(i)) < d.m, perm(d.row(d.gi(inv(i)), d.pos(inv(i)))) == i))
        # separation of different merged rows
        v.assume(z3.And(h2 > h, h2 < d.m, b >= 0, b < d.size(h2)))
        x, y = d.row(h, a), d.row(h2, b)
        v.lemma("members of an earlier merged row come earlier", z3.And(x < y, obs(x) < obs(y)))
        u = v.crossing(x, y, lambda q: obs(q) > obs(x))
        v.lemma("a break lies between them", z3.And(x < u, u <= y, start(u) > end(x)), hints=v.instances(u, x + 1, u - 1, (x + 1, u)))
        v.ensure("merged rows are separated", E(row(h, a)) < S(row(h2, b)))
        # no gap inside a merged row: between consecutive starts t lies in a member
        names = f.cols["satellite"](h), f.cols["instrument"](h)
        ok = all(isinstance(x, seq.StrJoin) and x.sep == ", " for x in names)
        v.ensure("names joined", z3.BoolVal(ok))
        if ok:
            v.ensure("names in start order", z3.And(names[0].xs.n == d.size(h), names[1].xs.n == d.size(h), equal(names[0].xs.get(a), Num(SAT(row(h, a)))), equal(names[1].xs.get(a), Num(INS(row(h, a))))))
        ag = getattr(f, "aggs", {}).get("epoch")
        v.ensure("the epoch is a mean", z3.BoolVal(ag is not None and ag[0] == "mean"))
        if ag is not None and ag[0] == "mean":
            mem = ag[1](h)
            v.ensure("of the epochs of the merged observations", z3.And(mem.n == d.size(h), equal(mem.get(a), STime(P(row(h, a))))))
            v.ensure("epoch column", equal(f.cols["epoch"](h), ag[2](h)))
        ge = f.cols["geometry"](h)
        if isinstance(ge, tables.Union):
            v.ensure("the geometry is the union of those of the merged observations", z3.And(ge.mem.n == d.size(h), equal(ge.mem.get(a), Num(G(row(h, a))))))
        else:
            v.ensure("the geometry is that of a merged observation", z3.Exists([w], z3.And(w >= 0, w < d.size(h), equal(ge, Num(G(row(h, w)))))))
        c = z3.Int("c")
        v.assume(z3.And(c >= a, c < d.size(h)))
        v.ensure("members listed in start order", S(row(h, a)) <= S(row(h, c)))
        v.ensure("access", equal(f.cols["access"](h), SDelta(en - st)))
        rv = tables.maybe(f.cols["revisit"](h))
        v.ensure("revisit is missing exactly for the first", rv.null == (h == 0))
        v.ensure("revisit is the gap to the previous", z3.Implies(h > 0, equal(rv.val, SDelta(st - f.cols["end"](h - 1).e))))
    V.vc("aggregate_observations: merged rows", body)

    def body_gap(v):
        """an instant inside a merged row lies in one of its observations"""
        n = v.int("rows", ge=1).e
        PID, SAT, INS, G = [z3.Function(x, I, I) for x in ("pid", "sat", "ins", "geom")]
        S, E, P = [z3.Function(x, I, R) for x in ("start_of", "end_of", "epoch_of")]
        t = lambda f: (lambda j: STime(f(j)))
        k = lambda f: (lambda j: Num(f(j)))
        r = seq.gvar("r")
        v.assume(z3.ForAll([r], S(r) <= E(r), patterns=[S(r)]))
        fr = TFrame(n, dict(point_id=k(PID), geometry=k(G), satellite=k(SAT), instrument=k(INS), start=t(S), end=t(E), epoch=t(P)))
        del tables.RUNNING[:]
        out = v.call(coverage.aggregate_observations, fr)
        if not isinstance(out, CFrame) or not hasattr(fr, "last_grouping"):
            raise Unsupported("result of another shape")
        g = fr.last_grouping
        p, h = z3.Ints("p h")
        v.assume(z3.And(p >= 0, p < g.m))
        f = out.inner(p)
        d = f.groups
        if d is None or not hasattr(f, "base") or not hasattr(f.base, "perm"):
            raise Unsupported("merged rows of another shape")
        perm = f.base.perm
        start, end = lambda x: S(g.row(p, perm(x))), lambda x: E(g.row(p, perm(x)))
        for x in v.instances(p):
            core.assume(x)
        v.assume(z3.And(h >= 0, h < d.m))
        st, en = f.cols["start"](h).e, f.cols["end"](h).e
        T = v.real("instant").e
        v.assume(z3.And(st <= T, T <= en))
        # if no member contains T: the members that start after T exist (the one ending last) and the first is before;
        wl = z3.Int("wl")      # the member ending at en
        v.assume(z3.And(wl >= 0, wl < d.size(h), en == end(d.row(h, wl))))
        wf = z3.Int("wf")
        v.assume(z3.And(wf >= 0, wf < d.size(h), st == start(d.row(h, wf))))
        q = seq.gvar("q")
        v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < d.size(h)), z3.Not(z3.And(start(d.row(h, q)) <= T, T <= end(d.row(h, q))))), patterns=[d.row(h, q)]))
        v.lemma("the member ending last starts after the instant", start(d.row(h, wl)) > T)
        v.lemma("the first member starts before it", start(d.row(h, wf)) <= T)
        lo, hi = d.row(h, wf), d.row(h, wl)
        v.lemma("in that order", lo < hi)
        u = v.crossing(lo, hi, lambda z: start(z) > T)
        obs = lambda x: d.keyf(x).e
        v.lemma("rows between two members are members", z3.And(obs(u) == obs(lo), obs(u - 1) == obs(lo), d.gi(u) == h, d.gi(u - 1) == h))
        # the row whose end is the running maximum before u
        cm = [x for x in tables.RUNNING if x[0] == "cummax"]
        if len(cm) != 1:
            raise Unsupported("running maximum of another shape")
        W = cm[0][2](p, u)
        w = W - 1
        v.lemma("the running maximum before u reaches u", z3.And(w >= 0, w < u, end(w) >= start(u)), hints=v.instances(u, u - 1, (u - 1, u)))
        v.lemma("it starts no later", start(w) <= T)
        z = v.crossing(w, u, lambda q: obs(q) > obs(w))
        v.lemma("rows of a merged row are within it", z3.Implies(d.gi(w) == h, z3.Not(z3.And(start(w) <= T, T <= end(w)))), hints=v.instances(w))
        v.lemma("so it is of an earlier merged row", obs(w) < obs(u))
        v.ensure("contradiction: the row after the gap opens a new merged row", z3.BoolVal(False), hints=v.instances(z, w + 1, z - 1, (w + 1, z), (z, u)))
    V.vc("aggregate_observations: no gap inside a merged row", body_gap)
