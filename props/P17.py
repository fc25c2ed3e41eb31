"""P17 dilution of precision."""
import math, warnings
from datetime import datetime, timedelta, timezone
import numpy as np
import pandas as pd
import geopandas as gpd
import z3
from vf import core, seq, tables
from vf.core import Num, Sym, equal, Unsupported, SymRaise, ctx
from vf.seq import Seq, zi
from vf.tmodel import STime
from vf.tables import maybe
from vf.interp import SObj, MODELS, METHOD_MODELS, is_sym
from vf.session import Fail, Skip, expect, expect_close
from vf.orb import tle_lines, TwoLineElements, UTC
from skyfield.api import EarthSatellite, wgs84
from tatc import constants
from tatc.schemas import Point, Satellite, Instrument
from tatc.analysis import compute_dop, DopMethod

ASSUMPTIONS = ["skyfield altitude, azimuth and range of each satellite from the site (position of satellites: P08)", "numpy: array of rows, boolean selection, column_stack, matrix product of H transposed with H, solve with the identity / inv (LinAlgError when singular)", "rounding: a numerically near-singular matrix is outside the concrete cases"]
KINDS = {"gdop": (0, 1, 2, 3), "pdop": (0, 1, 2), "hdop": (0, 1), "vdop": (2,), "tdop": (3,)}


def check(i):
    sats = [Satellite(name=f"s{k}", orbit=TwoLineElements(tle=[x for l in L for x in l]), instruments=[Instrument(name="i")]) for k, L in enumerate(i["sats"])]
    times = [datetime.fromisoformat(i["t0"]) + timedelta(seconds=s) for s in i["at"]]
    pt = Point(id=0, latitude=i["lat"], longitude=i["lon"], elevation=i["h"])
    topos = wgs84.latlon(i["lat"], i["lon"], i["h"])
    ts = constants.timescale
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = compute_dop(times, pt, sats, i["mask"], DopMethod(i["kind"]), **({} if i["min"] is None else dict(min_count_visible=i["min"])))
    mn = 3 if i["min"] is None else i["min"]
    expect(len(got) == len(times), f"{len(got)} rows for {len(times)} times", "rows")
    expect([pd.Timestamp(t).to_pydatetime() for t in got.index] == times, f"times {list(got.index)}", "index")
    for k, t in enumerate(times):
        g = got.geometry.iloc[k]
        expect(abs(g.x - i["lon"]) < 1e-9 and abs(g.y - i["lat"]) < 1e-9, f"located at {g}, user at longitude {i['lon']} latitude {i['lat']}", "location")
        rows, nvis = [], 0
        for L in i["sats"]:
            es = [EarthSatellite(*l) for l in L]
            d = [abs(e.epoch - ts.from_datetime(t)) for e in es]
            if len(d) > 1 and sorted(d)[1] - sorted(d)[0] < 1e-3:
                raise Skip()
            e = es[d.index(min(d))]
            alt, az, r = (e - topos).at(ts.from_datetime(t)).altaz()
            if abs(alt.degrees - i["mask"]) < 1e-3:
                raise Skip()
            if alt.degrees >= i["mask"]:
                nvis += 1
                rows.append([math.cos(alt.radians) * math.cos(az.radians), math.cos(alt.radians) * math.sin(az.radians), math.sin(alt.radians), 1.0])
        v = float(got.dop.iloc[k])
        what = f"{i['kind']} with {nvis} of {len(i['sats'])} satellites above {i['mask']}, minimum {i['min']}"
        if nvis < mn or nvis < 4:
            expect(math.isnan(v), f"{what}: {v}, expected none", "missing")
            continue
        H = np.array(rows)
        N = H.T @ H
        if np.linalg.cond(N) > 1e9:
            raise Skip()
        Q = np.linalg.inv(N)
        want = math.sqrt(sum(Q[j, j] for j in KINDS[i["kind"]]))
        expect(not math.isnan(v) and abs(v - want) < 1e-4 * want, f"{what}: {v}, expected {want}", "value")


def concrete(C):
    def gen(r):
        ep = datetime(2022, 1, 1, tzinfo=UTC) + timedelta(seconds=r.randrange(10**7))
        n = r.choice([3, 4, 5, 6, 8, 12, 20])
        high = r.random() < 0.7
        sats = []
        for k in range(n):
            kw = dict(cat="%05d" % r.randrange(10000, 90000), incl=r.uniform(40, 110), ecc=0.001, n=r.uniform(1.9, 2.1) if high else r.uniform(11, 14))
            sats.append([tle_lines(r, ep, kw, rich=False)] + ([tle_lines(r, ep + timedelta(days=2), kw, rich=False)] if r.random() < 0.15 else []))
        return dict(sats=sats, t0=ep.isoformat(), at=[r.uniform(0, 250000) for _ in range(r.choice([1, 2, 5]))], lat=r.uniform(-89, 89), lon=r.uniform(-180, 180), h=r.choice([0.0, 100.0, 5000.0]),
                    mask=r.choice([0.0, 5.0, 10.0, -30.0, -90.0]), kind=r.choice(list(KINDS)), min=r.choice([None, None, 3, 4, 5, 6, 8]))
    C.cases("values", gen, check, 200, "3..20 satellites with 1..2 element sets, 1..5 times, all kinds, any user position")


# ------------------------------------------------------------------ deductive
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
ELf, AZf, RGf = [z3.Function(x, I, I, R) for x in ("sat_el", "sat_az", "sat_range")]


class Grid2(Sym):
    """satellites x times: value(k, i), as assumed of a numpy array of equal-length rows."""

    def __init__(self, n, m, f):
        self.n, self.m, self.f = n, m, f

    def _subst(self, p):
        return Grid2(self.n, self.m, lambda k, i: core.subst(self.f(k, i), p))

    def _b(self, o, f):
        if isinstance(o, Grid2):
            return Grid2(self.n, self.m, lambda k, i: f(self.f(k, i), o.f(k, i)))
        if isinstance(o, Sym) and not isinstance(o, Num):
            return NotImplemented
        return Grid2(self.n, self.m, lambda k, i: f(self.f(k, i), o))

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._b(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __neg__(self):
        return Grid2(self.n, self.m, lambda k, i: -self.f(k, i))

    def __ge__(self, o):
        return self._b(o, lambda a, b: a >= b)

    def __gt__(self, o):
        return self._b(o, lambda a, b: a > b)

    def __le__(self, o):
        return self._b(o, lambda a, b: a <= b)

    def __lt__(self, o):
        return self._b(o, lambda a, b: a < b)

    @property
    def shape(self):
        return (core.mkn(self.n), core.mkn(self.m))

    def _vmap(self, g):
        return Grid2(self.n, self.m, lambda k, i: g(self.f(k, i)))

    def _getitem(self, interp, ix):
        if isinstance(ix, tuple) and len(ix) == 2:
            i = zi(ix[1])
            if ix[0] == slice(None) if not isinstance(ix[0], Sym) else False:
                return ColOf(self.n, lambda k: self.f(k, i))
            if isinstance(ix[0], ColOf):
                return Masked(self.n, ix[0].f, lambda k: self.f(k, i))
        raise Unsupported("array selection")


class ColOf(Sym):
    def __init__(self, n, f):
        self.n, self.f = n, f

    def _b(self, o, f):
        if isinstance(o, ColOf):
            return ColOf(self.n, lambda k: f(self.f(k), o.f(k)))
        if isinstance(o, Sym) and not isinstance(o, Num):
            return NotImplemented
        return ColOf(self.n, lambda k: f(self.f(k), o))

    def __ge__(self, o):
        return self._b(o, lambda a, b: a >= b)

    def __gt__(self, o):
        return self._b(o, lambda a, b: a > b)

    def __le__(self, o):
        return self._b(o, lambda a, b: a <= b)

    def __lt__(self, o):
        return self._b(o, lambda a, b: a < b)

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    def _getitem(self, interp, ix):
        if isinstance(ix, ColOf):
            return Masked(self.n, ix.f, self.f)
        raise Unsupported("array selection")

    def _subst(self, p):
        return ColOf(self.n, lambda k: core.subst(self.f(k), p))


class Masked(Sym):
    """entries of a column at the rows where cond holds, in order."""

    def __init__(self, n, cond, f):
        self.n, self.cond, self.f = n, cond, f

    def _subst(self, p):
        return self

    def _b(self, o, f):
        if isinstance(o, Masked):
            k = z3.Int("mk!")
            if not z3.simplify(core.zb(self.cond(k))).eq(z3.simplify(core.zb(o.cond(k)))):
                raise Unsupported("arrays selected by different masks")
            return Masked(self.n, self.cond, lambda k: f(self.f(k), o.f(k)))
        return Masked(self.n, self.cond, lambda k: f(self.f(k), o))

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._b(o, lambda a, b: b * a)


class Counts(Sym):
    """number of rows k with cond(k, i), per time i."""

    def __init__(self, g):
        self.g = g

    def _getitem(self, interp, ix):
        core.oblig("the count is of the satellites at or above the mask", z3.And(self.g.n == W["n"], spec_vis(self.g.f, zi(ix))))
        return Num(COUNT(zi(ix)))

    def _subst(self, p):
        return self


COUNT = z3.Function("count_visible", I, I)
SING = z3.Function("singular", I, B)
INV = z3.Function("inverse_entry", I, I, I, R)
W = {}


def spec_vis(f, i):
    k = seq.gvar("k")
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < W["n"]), core.zb(f(k, i)) == (ELf(k, i) >= W["mask"])))


class Stack(Sym):
    def __init__(self, cols):
        self.cols = cols

    @property
    def T(self):
        return StackT(self)

    def _subst(self, p):
        return self


class StackT(Sym):
    def __init__(self, h):
        self.h = h

    def __matmul__(self, o):
        if o is self.h:
            return Gram(o)
        raise Unsupported("product of other matrices")

    def _subst(self, p):
        return self


class Gram(Sym):
    def __init__(self, h):
        self.h = h

    def _subst(self, p):
        return self


class Inverse(Sym):
    def __init__(self, i):
        self.i = i

    def _getitem(self, interp, ix):
        if isinstance(ix, tuple) and len(ix) == 2 and all(isinstance(x, int) and -4 <= x < 4 for x in ix):
            return Num(INV(self.i, z3.IntVal(ix[0] % 4), z3.IntVal(ix[1] % 4)))
        raise Unsupported("matrix entry")

    def _subst(self, p):
        return Inverse(z3.substitute(self.i, *p))

    def diagonal(self):
        return [Num(INV(self.i, z3.IntVal(a), z3.IntVal(a))) for a in range(4)]


def invert(interp, args):
    g = args[0]
    if not isinstance(g, Gram) or not ctx.gvars:
        raise Unsupported("inverse of another matrix")
    if len(args) > 1 and not (isinstance(args[1], np.ndarray) and args[1].shape == (4, 4) and np.array_equal(np.asarray(args[1], dtype=float), np.eye(4))):
        raise Unsupported("right-hand side of the solve")
    i = ctx.gvars[-1]
    h = g.h
    if len(h.cols) != 4:
        raise Unsupported("normal matrix of another size")
    k = z3.FreshInt("k")
    core.assume(z3.And(k >= 0, k < W["n"]))
    el, az = Num(ELf(k, i)), Num(AZf(k, i))
    want = [core.fn("cos", el) * core.fn("cos", az), core.fn("cos", el) * core.fn("sin", az), core.fn("sin", el), Num(z3.RealVal(1))]
    for c in h.cols:
        if isinstance(c, Masked):
            core.oblig("rows are the satellites at or above the mask", z3.And(c.n == W["n"], core.zb(c.cond(k)) == (ELf(k, i) >= W["mask"])))
    got = [c.f(k) if isinstance(c, Masked) else c for c in h.cols]
    core.oblig("line-of-sight directions and clock term", z3.And(*[equal(a, b) for a, b in zip(got, want)]))
    ctx.trust("numpy linalg.solve(M, identity) / inv: the inverse of M, LinAlgError when M is singular")
    if core.decide(SING(i)):
        raise SymRaise(np.linalg.LinAlgError("Singular matrix"))
    ctx.trust("the inverse of a non-singular normal matrix is positive definite (positive diagonal)")
    core.assume(z3.And(*[INV(i, z3.IntVal(a), z3.IntVal(a)) > 0 for a in range(4)]))
    return Inverse(i)


def install():
    if "done" in W:
        return
    W["done"] = True
    MODELS[np.linalg.solve] = lambda interp, args, kw: invert(interp, args) if isinstance(args[0], Sym) else NotImplemented
    MODELS[np.linalg.inv] = lambda interp, args, kw: invert(interp, args) if isinstance(args[0], Sym) else NotImplemented
    MODELS[np.trace] = lambda interp, args, kw: sum(args[0].diagonal()[1:], args[0].diagonal()[0]) if isinstance(args[0], Inverse) else NotImplemented

    def colstack(interp, args, kw):
        c = args[0]
        if not isinstance(c, (tuple, list)) or not any(isinstance(x, Masked) for x in c):
            return NotImplemented
        return Stack([x if isinstance(x, Masked) else (Num(z3.RealVal(1)) if isinstance(x, Ones) else (_ for _ in ()).throw(Unsupported("column"))) for x in c])
    MODELS[np.column_stack] = colstack
    MODELS[np.vstack] = lambda interp, args, kw: (_ for _ in ()).throw(Unsupported("vstack")) if is_sym(args) else NotImplemented
    old = MODELS.get(np.ones)
    MODELS[np.ones] = lambda interp, args, kw: Ones() if is_sym(args) else (old(interp, args, kw) if old else NotImplemented)
    olds = MODELS[np.sum]

    def sum_(interp, args, kw):
        if isinstance(args[0], Grid2):
            if kw == {"axis": 0} and len(args) == 1:
                return Counts(args[0])
            raise Unsupported("sum of an array")
        if isinstance(args[0], ColOf):
            return Num(z3.FreshInt("count"))
        return olds(interp, args, kw)
    MODELS[np.sum] = MODELS[__import__("builtins").sum] = MODELS[np.count_nonzero] = sum_
    olda = MODELS[np.array]

    def array(interp, args, kw):
        x = args[0]
        if type(x) is Seq and isinstance(x.get(seq.gvar("k")), Seq):
            return Grid2(x.n, W["m"], lambda k, i: x.get(k).get(i))
        return olda(interp, args, kw)
    MODELS[np.array] = MODELS[np.asarray] = array
    oldp = MODELS.get(pd.Series)

    def series(interp, args, kw):
        x = args[0] if args else kw.get("data")
        if isinstance(x, Seq) and "index" in kw:
            return SCol(x, kw["index"])
        return oldp(interp, args, kw)
    MODELS[pd.Series] = series

    def pts(interp, args, kw):
        if not is_sym(args):
            return NotImplemented
        a, b = [seq.iterable(interp, x) for x in args[:2]]
        return Seq(a.n, lambda j: (a.get(j), b.get(j)))
    MODELS[gpd.points_from_xy] = pts
    oldg = MODELS[gpd.GeoDataFrame]

    def gdf(interp, args, kw):
        if args and isinstance(args[0], dict) and all(isinstance(x, SCol) for x in args[0].values()):
            return args[0]
        return oldg(interp, args, kw)
    MODELS[gpd.GeoDataFrame] = gdf
    import warnings as w_
    MODELS[w_.warn] = lambda interp, args, kw: None


class Ones(Sym):
    def _subst(self, p):
        return self


class SCol(Sym):
    def __init__(self, x, index):
        self.x, self.index = x, index

    def _subst(self, p):
        return SCol(core.subst(self.x, p), core.subst(self.index, p))


class Ang(Sym):
    def __init__(self, f):
        self.radians = f
        self.m = f

    def _subst(self, p):
        return Ang(core.subst(self.radians, p))


class Track(Sym):
    def __init__(self, k, times):
        self.k, self.times = k, times

    def _subst(self, p):
        return Track(core.subst(self.k, p), self.times)

    def __sub__(self, o):
        if not isinstance(o, Site) or o.times is not self.times:
            raise Unsupported("direction of another kind")
        return Sight(self.k, self.times)


class Sight(Sym):
    def __init__(self, k, times):
        self.k, self.times = k, times

    def _subst(self, p):
        return Sight(core.subst(self.k, p), self.times)

    def altaz(self):
        ctx.trust("skyfield: altitude, azimuth and range of a satellite position from a site")
        k = self.k.e
        return tuple(Ang(Seq(W["m"], lambda i, F=F: Num(F(k, i)), True)) for F in (ELf, AZf, RGf))


class Site(Sym):
    def __init__(self, c, times=None):
        self.c, self.times = c, times

    def at(self, t):
        return Site(self.c, t.src)

    def _subst(self, p):
        return self


class Times(Sym):
    def __init__(self, src):
        self.src = src

    def _subst(self, p):
        return self


class Orbit(Sym):
    def __init__(self, k):
        self.k = k

    def to_tle(self):
        return self

    def get_orbit_track(self, times, try_repeat=None):
        return Track(self.k, times)

    def _subst(self, p):
        return Orbit(core.subst(self.k, p))


def deductive(V):
    for kind in DopMethod:
        def body(v, kind=kind):
            install()
            n, m = v.int("satellites", ge=0).e, v.int("times", ge=0).e
            mask = v.real("mask")
            mn = v.int("minimum")
            lat, lon, h = v.real("lat"), v.real("lon"), v.real("h")
            W.update(n=n, m=m, mask=core.zr(mask * Num(core.PI) / 180))
            k, i = seq.gvar("k"), seq.gvar("i")
            v.assume(z3.ForAll([k, i], RGf(k, i) > 0, patterns=[RGf(k, i)]))
            T = z3.Function("time_of", I, R)
            times = Seq(m, lambda j: STime(T(j)))
            pt = SObj(Point, dict(id=0, latitude=lat, longitude=lon, elevation=h))
            sats = Seq(n, lambda k: SObj(Satellite, dict(name="s", orbit=Orbit(Num(k)), instruments=[], type="satellite")))
            METHOD_MODELS[(type(wgs84), "latlon")] = lambda interp, self_, args, kw: Site(args)
            METHOD_MODELS[(type(constants.timescale), "from_datetimes")] = lambda interp, self_, args, kw: Times(args[0]) if isinstance(args[0], Seq) else NotImplemented
            out = v.call(compute_dop, times, pt, sats, mask, kind, mn)
            if not isinstance(out, dict) or set(out) != {"dop", "geometry"}:
                raise Unsupported("result of another shape")
            j = z3.Int("j")
            v.assume(z3.And(j >= 0, j < m))
            for c in out.values():
                v.ensure("one row per time, labelled with it", z3.And(c.x.n == m, z3.BoolVal(c.index is times)))
            g = out["geometry"].x.get(j)
            v.ensure("located at the user's longitude and latitude", z3.And(equal(g[0], lon), equal(g[1], lat)))
            d = out["dop"].x.get(j)
            d = maybe(d)
            few = z3.Or(COUNT(j) < mn.e, COUNT(j) < 4)
            v.ensure("missing exactly when too few are visible or the matrix is singular", d.null == z3.Or(few, SING(j)))
            want = [Num(INV(j, z3.IntVal(a), z3.IntVal(a))) for a in KINDS[kind.value]]
            v.assume(z3.And(*[x.e > 0 for x in want]))      # as trusted of the inverse; unused when singular
            t = want[0]
            for x in want[1:]:
                t = t + x
            v.ensure("square root of the diagonal entries of this kind", z3.Implies(z3.Not(d.null), equal(d.val, core.fn("sqrt", t))))
        V.vc(f"compute_dop, {kind.value}", body)
