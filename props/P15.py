"""P15 reduced and gridded statistics."""
from datetime import datetime, timedelta, timezone
import math
import numpy as np
import pandas as pd
import geopandas as gpd
import z3
from shapely import geometry as geo
from vf.session import Fail, Skip, expect, expect_close
from vf import core, seq, tables
from vf.core import Num, equal, Unsupported, SBool
from vf.tmodel import STime, SDelta
from vf.tables import TFrame, CFrame, Maybe, maybe, WMean, SecondsOf
from tatc.analysis import coverage, latency

UTC = timezone.utc
T0 = datetime(2022, 3, 1, tzinfo=UTC)
ASSUMPTIONS = ["pandas/geopandas table operations (copy, dissolve with mean/sum/function, sjoin, apply) as assumed in vf/tables.py", "numpy average is the weighted mean; a mean over members skips missing ones"]


def labels(g, how, r=7):
    n = len(g)
    if how == "rev":
        g.index = list(range(n))[::-1]
    elif how == "offset":
        g.index = [100 + 3 * k for k in range(n)]
    elif how == "text":
        g.index = [f"r{(k * 5) % 17}_{k}" for k in range(n)]
    return g


def place(p):
    return geo.Point(-170 + (p * 37.3) % 340, -80 + (p * 23.7) % 160, 5.0 * (p % 2))


def td(x):
    return pd.NaT if x is None else timedelta(seconds=x)


def secs(x):
    return None if pd.isna(x) else pd.Timedelta(x).total_seconds()


def mean(xs):
    xs = [x for x in xs if x is not None]
    return math.fsum(xs) / len(xs) if xs else None


def same(a, b, what, key):
    expect((a is None) == (b is None) and (a is None or abs(a - b) <= 2e-6 + 1e-9 * abs(b)), f"{what}: {a}, expected {b}", key)


def check_reduce(i):
    rows = i["rows"]
    obs = gpd.GeoDataFrame([dict(point_id=p, geometry=place(p), satellite="s", instrument="i", start=T0, end=T0, epoch=T0, access=td(a), revisit=td(v)) for p, a, v, l in rows], crs="EPSG:4326")
    lat = gpd.GeoDataFrame([dict(point_id=p, geometry=place(p), satellite="s", instrument="i", observed=T0, latency=td(l)) for p, a, v, l in rows], crs="EPSG:4326")
    for g in (obs, lat):
        for c in ("access", "revisit", "latency"):
            if c in g:
                g[c] = pd.to_timedelta(pd.Series([pd.Timedelta(x) for x in g[c]], index=g.index, dtype="timedelta64[ns]"))
        labels(g, i["index"])
    for g, f, cols in ((obs, coverage.reduce_observations, dict(access=1, revisit=2)), (lat, latency.reduce_latencies, dict(latency=3))):
        keep = g.copy(deep=True)
        out = f(g)
        expect(list(g.columns) == list(keep.columns) and g.equals(keep), f"{f.__name__} modified its input", "input")
        expect(sorted(out.point_id) == sorted({r[0] for r in rows}), f"{f.__name__}: points {list(out.point_id)}", "points")
        for _, r in out.iterrows():
            mine = [x for x in rows if x[0] == r.point_id]
            what = f"{f.__name__} of {mine}"
            expect(int(r.samples) == len(mine), f"{what}: {r.samples} samples", "samples")
            q = place(r.point_id)
            expect(r.geometry.geom_type == "Point" and abs(r.geometry.x - q.x) < 1e-9 and abs(r.geometry.y - q.y) < 1e-9, f"{what}: located at {r.geometry}", "location")
            for c, k in cols.items():
                same(secs(r[c]), mean([x[k] for x in mine]), f"{what}: mean {c}", c)


def check_grid(i):
    pts = i["points"]
    base = [dict(point_id=p, geometry=geo.Point(x, y), samples=n) for p, x, y, n, a, v, l in pts]
    obs = gpd.GeoDataFrame([dict(b, access=td(x[4]), revisit=td(x[5])) for b, x in zip(base, pts)], crs="EPSG:4326")
    lat = gpd.GeoDataFrame([dict(b, latency=td(x[6])) for b, x in zip(base, pts)], crs="EPSG:4326")
    cells = gpd.GeoDataFrame([dict(cell_id=c, geometry=geo.box(*b)) for c, b in i["cells"]], crs="EPSG:4326")
    for g in (obs, lat):
        for c in ("access", "revisit", "latency"):
            if c in g:
                g[c] = pd.to_timedelta(pd.Series([pd.Timedelta(x) for x in g[c]], index=g.index, dtype="timedelta64[ns]"))
        labels(g, i["pindex"])
    labels(cells, i["cindex"])
    for g, f, cols in ((obs, coverage.grid_observations, dict(access=4, revisit=5)), (lat, latency.grid_latencies, dict(latency=6))):
        keep, keepc = g.copy(deep=True), cells.copy(deep=True)
        out = f(g, cells)
        expect(list(g.columns) == list(keep.columns) and g.equals(keep) and cells.equals(keepc), f"{f.__name__} modified its input", "input")
        inside = {c: [p for p in pts if b[0] < p[1] < b[2] and b[1] < p[2] < b[3]] for c, b in i["cells"]}
        expect(sorted(out.cell_id) == sorted(c for c, m in inside.items() if m), f"{f.__name__}: cells {list(out.cell_id)}, expected {[c for c, m in inside.items() if m]} ({i})", "cells")
        for _, r in out.iterrows():
            mine = inside[r.cell_id]
            what = f"{f.__name__} cell {r.cell_id} with (id, x, y, samples, access, revisit, latency) {mine}"
            expect(int(r.samples) == sum(p[3] for p in mine), f"{what}: {r.samples} samples", "samples")
            b = dict(map(tuple, i["cells"]))[r.cell_id] if False else [bb for c, bb in i["cells"] if c == r.cell_id][0]
            expect(r.geometry.equals(geo.box(*b)), f"{what}: geometry {r.geometry}", "location")
            for c, k in cols.items():
                if any(p[k] is None for p in mine):
                    continue
                want = math.fsum(p[k] * p[3] for p in mine) / sum(p[3] for p in mine)
                same(secs(r[c]), want, f"{what}: weighted mean {c}", c)


def check_empty(i):
    """a table without rows has no points."""
    cols = dict(point_id="int", geometry="object", satellite="str", instrument="str", start="datetime64[ns, utc]", epoch="datetime64[ns, utc]", end="datetime64[ns, utc]", access="timedelta64[ns]", revisit="timedelta64[ns]")
    if i["lat"]:
        cols = dict(point_id="int", geometry="object", satellite="str", instrument="str", observed="datetime64[ns, utc]", station="str", downlinked="datetime64[ns, utc]", latency="timedelta64[ns]")
    f = latency.reduce_latencies if i["lat"] else coverage.reduce_observations
    out = f(gpd.GeoDataFrame({c: pd.Series([], dtype=t) for c, t in cols.items()}, crs="EPSG:4326"))
    want = ["point_id", "geometry", "samples"] + (["latency"] if i["lat"] else ["access", "revisit"])
    expect(len(out) == 0 and all(c in out.columns for c in want), f"{f.__name__} of an empty table: {len(out)} rows, columns {list(out.columns)}", "empty")


def concrete(C):
    C.cases("empty tables", lambda r: dict(lat=r.random() < 0.5), check_empty, 4, "tables without rows", share=0.05)

    def opt(r, p=0.2):
        return None if r.random() < p else r.choice([float(r.randrange(0, 5000)), r.uniform(0, 1e5)])

    def gr(r):
        npts = r.choice([1, 2, 5])
        ids = r.sample(range(200), npts)
        rows = [[r.choice(ids), r.choice([0.0, 60.0, r.uniform(0, 900)]), opt(r, r.choice([0.2, 0.9])), opt(r, r.choice([0.0, 0.3, 0.9]))] for _ in range(r.choice([1, 2, 6, 20]))]
        return dict(rows=rows, index=r.choice(["range", "rev", "offset", "text"]))
    C.cases("reduce", gr, check_reduce, 150, "1..20 rows of 1..5 points with missing values, any labelling")

    def gg(r):
        d = r.choice([10.0, 20.0, 45.0])
        boxes, k = [], 0
        for a in range(r.choice([1, 2, 3])):
            for b in range(r.choice([1, 2, 4])):
                boxes.append([k * 3 + 1, [-90 + a * d, -45 + b * d * 0.5, -90 + (a + 1) * d, -45 + (b + 1) * d * 0.5]])
                k += 1
        r.shuffle(boxes)
        n = r.choice([1, 2, 5, 12])
        same_n = r.random() < 0.2
        miss = r.random() < 0.3
        ids = r.sample(range(100), n)
        pts = [[ids[j], round(r.uniform(-95, -90 + 3 * d + 5), 3) + 0.0001, round(r.uniform(-47, -45 + 2 * d), 3) + 0.0001, 3 if same_n else r.choice([1, 2, 10, r.randrange(1, 100)]), r.uniform(0, 900), None if miss and r.random() < 0.3 else r.uniform(0, 1e5), None if miss and r.random() < 0.3 else r.uniform(0, 1e5)] for j in range(n)]
        if r.random() < 0.7:      # all in the first cells
            for p in pts:
                b = r.choice(boxes[:2])[1]
                p[1], p[2] = r.uniform(b[0] + 0.01, b[2] - 0.01), r.uniform(b[1] + 0.01, b[3] - 0.01)
        for p in pts:             # on a side or corner of a cell: inside none
            if r.random() < 0.1:
                b = r.choice(boxes)[1]
                p[1], p[2] = r.choice([(b[0], (b[1] + b[3]) / 2), ((b[0] + b[2]) / 2, b[3]), (b[2], b[1])])
        return dict(cells=boxes, points=pts, pindex=r.choice(["range", "rev", "offset", "text"]), cindex=r.choice(["range", "rev", "offset", "text"]))
    C.cases("grid", gg, check_grid, 200, "1..12 cells, 1..12 points in cells, outside or on their sides, any labelling and order")


# ------------------------------------------------------------------ deductive
def deductive(V):
    I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
    num = lambda f: (lambda j: Num(f(j)))

    def columns(spec):
        """column name -> (function of the row, missing flag or None); times in seconds."""
        cols, funs = {}, {}
        for name, may in spec:
            F, N = z3.Function("c_" + name, I, R), z3.Function("none_" + name, I, B)
            funs[name] = (F, N)
            cols[name] = (lambda j, F=F, N=N: Maybe(N(j), SDelta(F(j)))) if may else (lambda j, F=F: SDelta(F(j)))
        return cols, funs

    def body_reduce(v, f, spec):
        n = v.int("rows", ge=1).e
        PID, G = z3.Function("pid", I, I), z3.Function("geom", I, I)
        cols, funs = columns(spec)
        fr = TFrame(n, dict(point_id=num(PID), geometry=num(G), **cols))
        before = dict(fr.cols)
        out = v.call(f, fr)
        if not isinstance(out, TFrame) or out.groups is None:
            raise Unsupported("result of another shape")
        g = out.groups
        v.ensure("the input table is not modified", z3.BoolVal(set(fr.cols) == set(before) and all(fr.cols[k] is before[k] for k in before)))
        h, q, r = z3.Ints("h q r")
        v.ensure("one row per group", out.n == g.m)
        v.assume(z3.And(r >= 0, r < n))
        v.assume(z3.And(h >= 0, h < g.m, q >= 0, q < g.size(h)))
        v.ensure("labelled by its point", equal(out.cols["point_id"](h), Num(PID(g.row(h, q)))), hints=v.instances((h, q), (h, z3.IntVal(0))))
        v.ensure("every row of the table is in the group of its point", z3.And(g.gi(r) >= 0, g.gi(r) < g.m, g.row(g.gi(r), g.pos(r)) == r))
        v.ensure("samples counts the rows of the point", equal(out.cols["samples"](h), Num(g.size(h))))
        for name, may in spec:
            if name not in out.aggs or out.aggs[name][0] != "mean":
                v.ensure(f"{name} is a mean over the rows of the point", z3.BoolVal(False))
                continue
            kind, mem, val = out.aggs[name]
            F, N = funs[name]
            x = maybe(mem(h).get(q))
            v.ensure(f"the mean of {name} is over its rows, in seconds", z3.And(mem(h).n == g.size(h), equal(x, Maybe(N(g.row(h, q)), Num(F(g.row(h, q)))) if may else Num(F(g.row(h, q))))))
            m, o = maybe(val(h)), maybe(out.cols[name](h))
            v.ensure(f"{name} is that mean as a duration", z3.And(o.null == m.null, z3.Implies(z3.Not(m.null), equal(o.val, SDelta(core.zr(m.val))))))
            if may:
                v.ensure(f"{name} is missing only if no row has one", z3.Implies(z3.Not(N(g.row(h, q))), z3.Not(o.null)))
    V.vc("reduce_observations", lambda v: body_reduce(v, coverage.reduce_observations, [("access", False), ("revisit", True)]))
    V.vc("reduce_latencies", lambda v: body_reduce(v, latency.reduce_latencies, [("latency", True)]))

    def body_grid(v, f, spec):
        n, nc = v.int("points", ge=1).e, v.int("cells", ge=0).e
        PID, G, N = z3.Function("pid", I, I), z3.Function("geom", I, I), z3.Function("samples_of", I, I)
        CID, CG = z3.Function("cid", I, I), z3.Function("cgeom", I, I)
        cols, funs = columns(spec)
        fr = TFrame(n, dict(point_id=num(PID), geometry=num(G), samples=num(N), **cols))
        cells = TFrame(nc, dict(cell_id=num(CID), geometry=num(CG)))
        before, beforec = dict(fr.cols), dict(cells.cols)
        out = v.call(f, fr, cells)
        if not isinstance(out, TFrame) or out.groups is None or not hasattr(cells, "last_join"):
            raise Unsupported("result of another shape")
        g = out.groups
        jn, Lf, Rf, Jf, rel = cells.last_join
        v.ensure("the input tables are not modified", z3.BoolVal(all(fr.cols.get(k) is before[k] for k in before) and len(fr.cols) == len(before) and all(cells.cols.get(k) is beforec[k] for k in beforec) and len(cells.cols) == len(beforec)))
        v.ensure("points inside cells are joined", z3.BoolVal(str(rel).startswith("rel_contains")))
        h, q, c, p, q2 = z3.Ints("h q c p q2")
        v.ensure("one row per cell with points", out.n == g.m)
        v.assume(z3.And(h >= 0, h < g.m, q >= 0, q < g.size(h)))
        v.ensure("each pair is of the row's cell", equal(out.cols["cell_id"](h), Num(CID(Lf(g.row(h, q))))), hints=v.instances((h, q), (h, z3.IntVal(0))))
        v.assume(z3.And(c >= 0, c < nc, p >= 0, p < n, rel(CG(c), G(p))))
        v.ensure("every point inside a cell is counted in it", z3.And(g.gi(Jf(c, p)) >= 0, g.gi(Jf(c, p)) < g.m, Rf(g.row(g.gi(Jf(c, p)), g.pos(Jf(c, p)))) == p), hints=v.instances((c, p), Jf(c, p)))
        k, mem, val = out.aggs.get("samples", (None, None, None))
        v.ensure("samples are summed", z3.BoolVal(k == "sum"))
        if k == "sum":
            v.ensure("over the points of the cell", z3.And(mem(h).n == g.size(h), equal(mem(h).get(q), Num(N(Rf(g.row(h, q)))))))
            v.ensure("samples column", equal(out.cols["samples"](h), val(h)))
        for name, may in spec:
            F, Nn = funs[name]
            o = out.cols[name](h)
            alts = o.alts if isinstance(o, core.Case) else [(z3.BoolVal(True), o)]
            for cond, x in alts:
                if x is None or isinstance(x, type(pd.NaT)):
                    every = z3.ForAll([q2], z3.Implies(z3.And(q2 >= 0, q2 < g.size(h)), z3.Not(Nn(Rf(g.row(h, q2)))))) if may else z3.BoolVal(True)
                    v.ensure(f"{name} is missing only if some point of the cell has none", z3.Not(z3.And(cond, every)))
                    continue
                if not isinstance(x, SecondsOf) or not isinstance(x.x, WMean):
                    v.ensure(f"{name} is a weighted mean", z3.BoolVal(False))
                    continue
                w = x.x
                v.ensure(f"{name}: values of the points of the cell", z3.And(w.vals.n == g.size(h), equal(maybe(w.vals.get(q)), Maybe(Nn(Rf(g.row(h, q))), Num(F(Rf(g.row(h, q))))) if may else Num(F(Rf(g.row(h, q)))))))
                v.ensure(f"{name}: weighted by their samples", z3.And(w.wts.n == g.size(h), equal(w.wts.get(q), Num(N(Rf(g.row(h, q)))))))
    V.vc("grid_observations", lambda v: body_grid(v, coverage.grid_observations, [("access", False), ("revisit", True)]))
    V.vc("grid_latencies", lambda v: body_grid(v, latency.grid_latencies, [("latency", True)]))
