"""P18 radio occultation."""
import math
from datetime import datetime, timedelta, timezone
import numpy as np
import pandas as pd
import geopandas as gpd
import z3
from vf import core, seq, tables
from vf.core import Num, Sym, equal, Unsupported, SymRaise, ctx
from vf.seq import Seq, FSeq, zi
from vf.tmodel import STime
from vf.interp import SObj, MODELS, METHOD_MODELS, LOOP_RULES, is_sym
from vf.session import Fail, Skip, expect, expect_close
from vf.orb import tle_lines, TwoLineElements, UTC
from skyfield.api import EarthSatellite, wgs84, Distance, Velocity
from skyfield.positionlib import Geocentric
from tatc import constants
from tatc.schemas import Satellite, Instrument
from tatc.analysis import collect_ro_observations, ro_coverage

ASSUMPTIONS = ["skyfield: geodetic position of a point, altitude/azimuth of one point from another, x/y/z components (satellite positions: P08)",
               "numpy: einsum row products, norm, cross, nonzero and diff as mathematical sequence functions; reals for floats",
               "domain: max_yaw in (0, 90]; a yaw exactly at +-180 or at the boundary 180-max_yaw is excluded (rounding decides it)",
               "geopandas: a table of records has their rows in order; sort_values permutes the rows into order; itertools chain joins lists",
               "every arc has at least one point (the arc loop's contract)"]
AU = 149597870700.0
TS = constants.timescale


class motion:
    """satellite positions and velocities under control: name of element set -> (time -> position m, velocity m/s)."""

    def __init__(self, f):
        self.f = f

    def __enter__(self):
        self.old = TwoLineElements.get_orbit_track

        def g(s, times, try_repeat=None):
            f = self.f[s.tle[0][2:7]]
            one = isinstance(times, datetime)
            L = [f(t) for t in ([times] if one else times)]
            p, v = np.array([x[0] for x in L]).T / AU, np.array([x[1] for x in L]).T * 86400 / AU
            return Geocentric(p[:, 0] if one else p, v[:, 0] if one else v, TS.from_datetime(times) if one else TS.from_datetimes(times))
        if self.f is not None:
            TwoLineElements.get_orbit_track = g
        return self

    def __exit__(self, *a):
        TwoLineElements.get_orbit_track = self.old


def geodetic(p, t):
    g = wgs84.geographic_position_of(Geocentric(np.array(p) / AU, np.zeros(3), TS.from_datetime(t)))
    return g.longitude.degrees, g.latitude.degrees, g.elevation.m, g


def samples(rx, tx, t, i):
    """(valid, record) of one sample, from the definitions."""
    rp, rv, tp_ = np.array(rx[0]), np.array(rx[1]), np.array(tx[0])
    d = tp_ - rp
    L = float(d @ d)
    s = -float(rp @ d) / L            # closest point of the line to the centre: rp + s d
    p = rp + s * d
    if min(abs(s), abs(s - 1)) < 1e-9:
        raise Skip()
    n = np.cross(rp, rv)
    n, b, v = n / np.linalg.norm(n), rp / np.linalg.norm(rp), rv / np.linalg.norm(rv)
    hor = d - b * (b @ d)
    yaw = math.degrees(math.atan2(n @ hor, v @ hor))
    ver = d - n * (n @ d)
    pitch = math.degrees(math.atan2(b @ ver, v @ ver))
    off = min(abs(yaw), 180 - abs(yaw))
    if abs(off - i["yaw"]) < 1e-7 or abs(yaw) > 180 - 1e-9:
        raise Skip()
    lon, lat, h, g = geodetic(p, t)
    lo, hi = i["range"]
    if min(abs(h - lo), abs(h - hi)) < 1e-3 or abs(v @ d) < 1e-3:
        raise Skip()
    ok = 0 < s < 1 and off < i["yaw"] and lo < h < hi
    az = (Geocentric(tp_ / AU, np.zeros(3), TS.from_datetime(t)) - g.at(TS.from_datetime(t))).altaz()[1].degrees if ok else None
    return ok, dict(t=t, lon=lon, lat=lat, h=h, pitch=pitch, yaw=yaw, az=az, ahead=float(v @ d) > 0)


def check(i):
    rx = Satellite(name="rx", orbit=TwoLineElements(tle=[x for l in i["rx"] for x in l]), instruments=[Instrument(name="i")])
    tx = [Satellite(name=f"tx{k}", orbit=TwoLineElements(tle=[x for l in L for x in l]), instruments=[Instrument(name="i")]) for k, L in enumerate(i["tx"])]
    t0 = datetime.fromisoformat(i["t0"])
    times = [t0 + timedelta(seconds=s) for s in i["at"]]
    f = None
    if i["paths"] is not None:
        f = {name: (lambda t, P=P: P[min(range(len(times)), key=lambda k: abs((times[k] - t).total_seconds()))]) for name, P in i["paths"].items()}
    kw = dict(sample_elevation=i["sample"], max_yaw=i["yaw"], range_elevation=tuple(i["range"]))
    with motion(f):
        pv = lambda s: [(lambda g: (g.position.m, g.velocity.m_per_s))(s.orbit.to_tle().get_orbit_track(t)) for t in times]
        R, T = pv(rx), [pv(s) for s in tx]
        got = collect_ro_observations(rx, tx if len(tx) > 1 or i["aslist"] else tx[0], times, **kw)
    exp = []
    for s, P in zip(tx, T):
        S = [samples(R[k], P[k], t, i) for k, t in enumerate(times)]
        run = []
        for k in range(len(S) + 1):
            if k < len(S) and S[k][0]:
                run.append(S[k][1])
            elif run:
                exp.append((s.name, run))
                run = []
    what = f"{len(times)} samples, yaw {i['yaw']}, range {i['range']}"
    expect(len(got) == len(exp), f"{what}: {len(got)} arcs, expected {len(exp)}: {[(n, len(a)) for n, a in exp]}", "count")
    tt = list(got["time"]) if len(got) else []
    expect(all(a <= b for a, b in zip(tt, tt[1:])) and list(got.index) == list(range(len(got))), "rows not in time order", "order")
    rest = list(exp)
    for _, r in got.iterrows():
        m = [x for x in rest if x[0] == r.transmitter and x[1][0]["t"] == r.start.to_pydatetime() and x[1][-1]["t"] == r.end.to_pydatetime()]
        expect(m, f"{what}: arc {r.transmitter} {r.start}..{r.end} is not a maximal valid run", "arc")
        rest.remove(m[0])
        arc = m[0][1]
        near = sorted(abs(a["h"] - i["sample"]) for a in arc)
        best = [a for a in arc if abs(abs(a["h"] - i["sample"]) - near[0]) < 1e-3]
        expect(r.receiver == "rx", "receiver name", "labels")
        expect(bool(r.is_rising) == arc[0]["ahead"], f"{what}: rising {r.is_rising} but transmitter ahead {arc[0]['ahead']}", "rising")
        a = [a for a in best if a["t"] == r.time.to_pydatetime()]
        expect(a, f"{what}: sampled at {r.time}, expected {best[0]['t']}", "sample")
        a = a[0]
        q = r.position
        expect(abs((q.x - a["lon"] + 180) % 360 - 180) < 1e-4 / max(1e-3, math.cos(math.radians(a["lat"]))) and abs(q.y - a["lat"]) < 1e-4 and abs(q.z - a["h"]) < 1.0, f"{what}: position {q}, expected {a}", "position")
        for c, k in (("rx_tx_pitch", "pitch"), ("rx_tx_yaw", "yaw"), ("tp_tx_azimuth", "az")):
            expect(abs((r[c] - a[k] + 180) % 360 - 180) < 1e-3, f"{what}: {c} {r[c]}, expected {a[k]}", c)
        P = list(r.geometry.geoms)
        expect(len(P) == len(arc), f"{what}: {len(P)} tangent points, expected {len(arc)}", "points")
        for g, a in zip(P, arc):
            expect(abs((g.x - a["lon"] + 180) % 360 - 180) < 1e-4 / max(1e-3, math.cos(math.radians(a["lat"]))) and abs(g.y - a["lat"]) < 1e-4 and abs(g.z - a["h"]) < 1.0, f"{what}: tangent point {g}, expected {a}", "points")


def leo(r, ep, k, n):
    kw = dict(cat="%05d" % (10000 + k), incl=r.uniform(20, 110), ecc=0.002, n=n)
    return [tle_lines(r, ep, kw, rich=False)] + ([tle_lines(r, ep + timedelta(hours=1), kw, rich=False)] if r.random() < 0.2 else [])


def concrete(C):
    def gen(r):
        ep = datetime(2022, 1, 1, tzinfo=UTC) + timedelta(seconds=r.randrange(10**7))
        nt = r.choice([1, 1, 2, 3])
        step = r.choice([20, 60, 120])
        n = r.choice([1, 2, 30, 60])
        return dict(rx=leo(r, ep, 0, r.uniform(13, 15)), tx=[leo(r, ep, k + 1, r.choice([2.0056, r.uniform(11, 14)])) for k in range(nt)], t0=ep.isoformat(), at=[step * k + r.randrange(3600) * 0 for k in range(n)], paths=None,
                    sample=r.choice([0, 0, 20e3, -100e3]), yaw=r.choice([65, 65, 30, 80, 10]), range=r.choice([[-200e3, 60e3], [-200e3, 60e3], [-1000e3, 2000e3], [0, 30e3]]), aslist=r.random() < 0.5)
    C.cases("propagated", gen, check, 60, "LEO receiver, 1..3 transmitters (1..2 element sets), 1..60 samples", share=0.45)

    def gen2(r):
        """positions chosen per sample, so that arcs start and end for every reason"""
        ep = datetime(2022, 1, 1, tzinfo=UTC) + timedelta(seconds=r.randrange(10**7))
        nt, n = r.choice([1, 1, 2]), r.choice([1, 2, 4, 8, 12])
        paths = {}
        R = []
        for k in range(n):
            a = 2 * math.pi * r.random()
            b = r.uniform(-1.4, 1.4)
            u = np.array([math.cos(a) * math.cos(b), math.sin(a) * math.cos(b), math.sin(b)])
            w = np.cross(u, [0.3, 0.5, 0.8])
            w /= np.linalg.norm(w)
            R.append((u, w, np.cross(u, w)))
        rr = r.uniform(6.8e6, 7.2e6)
        paths["10000"] = [((rr * u).tolist(), (7600 * w + r.uniform(-50, 50) * u).tolist()) for u, w, n_ in R]
        mode = [r.choice(["good", "good", "good", "above", "low", "high", "side"]) for _ in range(n)]
        for q in range(nt):
            P = []
            prev = 1
            for k in range(n):
                u, w, n_ = R[k]
                m = mode[k] if r.random() < 0.8 else "good"
                h = {"low": r.uniform(-500e3, -210e3), "high": r.uniform(70e3, 200e3)}.get(m, r.uniform(-190e3, 50e3))
                s = prev = prev if r.random() < 0.7 else -prev
                yaw = math.radians(r.uniform(70, 110) if m == "side" else r.uniform(-60, 60) if r.random() < 0.8 else r.uniform(-64, 64))
                d = math.cos(yaw) * w * s + math.sin(yaw) * n_
                rt = 6371e3 + h
                down = math.acos(rt / rr)
                tp = rt * (math.cos(down) * u + math.sin(down) * d)
                D = tp - rr * u
                P.append(((rr * u + D * (r.uniform(2, 8) if m != "above" else r.uniform(0.2, 0.9))).tolist(), [10.0, 20.0, 30.0]))
            paths["%05d" % (10001 + q)] = P
        return dict(rx=[tle_lines(r, ep, dict(cat="10000", incl=50.0, ecc=0.001, n=14.0), rich=False)], tx=[[tle_lines(r, ep, dict(cat="%05d" % (10001 + q), incl=50.0, ecc=0.001, n=3.0), rich=False)] for q in range(nt)], t0=ep.isoformat(),
                    at=[30 * k for k in range(n)], paths=paths, sample=r.choice([0, 30e3, -100e3]), yaw=65, range=[-200e3, 60e3], aslist=r.random() < 0.5)
    C.cases("chosen positions", gen2, check, 200, "1..12 samples with positions chosen so that arcs start and end for each reason", share=0.8)


# ------------------------------------------------------------------ deductive
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
ROT = "tatc.analysis.ro_coverage."


class V3(Sym):
    """3 x N array: component c of sample j, as assumed of numpy."""

    def __init__(self, n, f):
        self.n, self.f = n, f

    def _subst(self, p):
        return V3(self.n, lambda c, j: core.subst(self.f(c, j), p))

    def _b(self, o, g):
        if isinstance(o, V3):
            return V3(self.n, lambda c, j: g(self.f(c, j), o.f(c, j)))
        if isinstance(o, Sym) and not isinstance(o, Num):
            return NotImplemented
        return V3(self.n, lambda c, j: g(self.f(c, j), o))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    def _getitem(self, interp, ix):
        if isinstance(ix, tuple) and len(ix) == 2 and not isinstance(ix[0], Sym) and ix[0] == slice(None):
            j = zi(ix[1])
            return np.array([self.f(c, j) for c in range(3)] + [None], dtype=object)[:3]
        raise Unsupported("array selection")


def einsum(interp, args, kw):
    if not is_sym(args):
        return NotImplemented
    spec, a, b = args[0].replace(" ", ""), args[1], args[2]
    if not isinstance(a, V3) or kw:
        raise Unsupported("einsum")
    if spec == "ij,ij->j" and isinstance(b, V3):
        return Seq(a.n, lambda j: a.f(0, j) * b.f(0, j) + a.f(1, j) * b.f(1, j) + a.f(2, j) * b.f(2, j), True)
    if spec == "ij,j->ij" and isinstance(b, Seq):
        return V3(a.n, lambda c, j: a.f(c, j) * b.get(j))
    raise Unsupported("einsum")


class Obj(Sym):
    def __init__(self, **k):
        self.__dict__.update(k)

    def _subst(self, p):
        return Obj(**{k: core.subst(x, p) for k, x in self.__dict__.items()})


class PV(Sym):
    """positions and velocities of one satellite at the times."""

    def __init__(self, n, x, v):
        self.n, self.x, self.v = n, x, v
        self.position = Obj(m=x, au=x)
        self.velocity = Obj(m_per_s=v, au_per_d=v)

    def __sub__(self, o):
        return PV(self.n, self.x - o.x, self.v - o.v)

    def _subst(self, p):
        return self


class At(Sym):
    """one position at one time."""

    def __init__(self, p, t):
        self.p, self.t = p, t

    def _subst(self, q):
        return At(core.subst(self.p, q), core.subst(self.t, q))

    def __sub__(self, o):
        return Sight(self, o)


class Sight(Sym):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def _subst(self, q):
        return Sight(core.subst(self.a, q), core.subst(self.b, q))

    def altaz(self):
        if not isinstance(self.b, GeoAt):
            raise Unsupported("direction of another kind")
        return (None, Obj(degrees=Az(self.a, self.b)), None)


class Az(Sym):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def _subst(self, q):
        return Az(core.subst(self.a, q), core.subst(self.b, q))


class GeoAt(Sym):
    def __init__(self, g, t):
        self.g, self.t = g, t

    def _subst(self, q):
        return GeoAt(core.subst(self.g, q), core.subst(self.t, q))


HT, LO, LA, TM = z3.Function("tp_height", I, R), z3.Function("tp_lon", I, R), z3.Function("tp_lat", I, R), z3.Function("time_at", I, R)


class Geo(Sym):
    """geodetic position of the tangent point of sample j."""

    def __init__(self, j):
        self.j = j

    def _subst(self, q):
        return Geo(z3.substitute(self.j, *q))

    @property
    def elevation(self):
        return Obj(m=Num(HT(self.j)))

    @property
    def longitude(self):
        return Obj(degrees=Num(LO(self.j)))

    @property
    def latitude(self):
        return Obj(degrees=Num(LA(self.j)))

    def at(self, t):
        return GeoAt(self, t)

    def _equal(self, o):
        return self.j == o.j if isinstance(o, Geo) else z3.BoolVal(False)


W = {}


class Pts(Sym):
    """samples of the open arc: those of first..last, then the ones appended."""

    def __init__(self, first, last):
        self.first, self.last, self.more = first, last, []

    def append(self, x):
        self.more.append(x)

    def _subst(self, q):
        return self


class ArcLog(list):
    pass


def install():
    if "done" in W:
        return
    W["done"] = True
    MODELS[np.einsum] = einsum
    MODELS[Distance] = lambda interp, args, kw: Obj(au=kw["m"]) if not args and set(kw) == {"m"} and is_sym(kw["m"]) else NotImplemented
    MODELS[Velocity] = lambda interp, args, kw: Obj(au_per_d=kw["km_per_s"]) if not args and set(kw) == {"km_per_s"} and is_sym(kw["km_per_s"]) else NotImplemented
    MODELS[Geocentric] = lambda interp, args, kw: At(args[0], args[2]) if is_sym(args[0]) and len(args) == 3 else NotImplemented
    METHOD_MODELS[(type(constants.timescale), "from_datetime")] = lambda interp, self_, args, kw: args[0] if isinstance(args[0], STime) else NotImplemented
    METHOD_MODELS[(type(wgs84), "geographic_position_of")] = geopos
    oldnz = MODELS.get(np.nonzero)
    MODELS[np.nonzero] = lambda interp, args, kw: (FSeq(args[0].n, lambda i: args[0].get(i), lambda i: core.mkn(i), True),) if isinstance(args[0], Seq) else (oldnz(interp, args, kw) if oldnz else NotImplemented)
    olddiff = MODELS[np.diff]

    def diff(interp, args, kw):
        x = args[0]
        if isinstance(x, Seq) and isinstance(x.get(z3.Int("d!")), (core.SBool, bool)):
            return Seq(z3.simplify(z3.If(x.n > 0, x.n - 1, z3.IntVal(0))), lambda j: core.mkb(z3.Xor(core.zb(x.get(j + 1)), core.zb(x.get(j)))), True)
        return olddiff(interp, args, kw)
    MODELS[np.diff] = diff


def geopos(interp, self_, args, kw):
    x = args[0]
    if not isinstance(x, At) or "j" not in W:
        raise Unsupported("geodetic position of another point")
    j = W["j"]
    tp = W["tp"](j)
    core.oblig("the sampled point is the tangent point of this sample", z3.And(*[equal(a, b) for a, b in zip(x.p, tp)], equal(x.t, STime(TM(j)))))
    ctx.trust("skyfield: geodetic position of an inertial point at a time")
    return Geo(j)


def deductive(V):
    def dot(a, b):
        return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]

    def setup(v):
        install()
        n = v.int("samples", ge=1).e
        X = {k: [z3.Function(f"{k}{c}", I, R) for c in "xyz"] for k in ("tx", "txv", "rx", "rxv", "u", "w", "b")}
        arr = lambda k: V3(n, lambda c, j: Num(X[k][c](j)))
        vec = lambda k, j: [Num(X[k][c](j)) for c in range(3)]
        i = seq.gvar("i")
        dd = sum(((X["tx"][c](i) - X["rx"][c](i)) * (X["tx"][c](i) - X["rx"][c](i)) for c in range(3)), z3.RealVal(0))
        v.assume(z3.ForAll([i], dd > 0, patterns=[X["tx"][0](i)]))
        times = Seq(n, lambda j: STime(TM(j)))
        tx = PV(n, arr("tx"), arr("txv"))
        sat = SObj(Satellite, dict(name="tx", orbit=Orb(tx, times), instruments=[], type="satellite"))
        W.update(n=n, X=X, vec=vec, times=times, tx=tx)
        return n, times, sat, arr, vec

    ROLE = {}

    def role(env, name, kind, spec):
        """the intermediate array that is `spec` at any sample: by its usual name, else by what it provably equals."""
        x = env.get(ROLE.get(name, name))
        if isinstance(x, kind):
            return x
        j = z3.Int("role_j")
        for nm, x in env.items():
            if isinstance(x, kind) and not isinstance(x, FSeq):
                try:
                    g = spec(x, j)
                    if g is not None and core.prove(g, [], ms=1000, cli=False).status == "proved":
                        ROLE[name] = nm
                        return x
                except (Unsupported, z3.Z3Exception, AttributeError, TypeError):
                    pass
        raise Unsupported("other intermediate values")

    def roles(env, vec):
        """tangent point, pitch and yaw of the samples."""
        def tangent(x, j):
            T, Rr = vec("tx", j), vec("rx", j)
            D = [a - b for a, b in zip(T, Rr)]
            q, DD, TD = (Num(z3.Real("role_" + k)) for k in ("q", "DD", "TD"))
            hyp = z3.And(equal(DD, dot(D, D)), equal(TD, dot(T, D)), equal(q * DD, TD), core.zb(DD > 0))
            return z3.Implies(hyp, z3.And(*[equal(x.f(c, j), T[c] - q * D[c]) for c in range(3)]))

        def angle(off, along):
            def f(x, j):
                if not isinstance(x.get(j), Num):
                    return None
                T, Rr = vec("tx", j), vec("rx", j)
                D = [a - b for a, b in zip(T, Rr)]
                O, A, U = vec(off, j), vec(along, j), vec("u", j)
                h = [D[c] - O[c] * dot(O, D) for c in range(3)]
                return equal(x.get(j), core.fn("atan2", dot(h, A), dot(h, U)) * 180 / Num(core.PI))
            return f
        return role(env, "tp_p", V3, tangent), role(env, "rx_tx_pitch", Seq, angle("w", "b")), role(env, "rx_tx_yaw", Seq, angle("b", "w"))

    # -- 1. the definitions of a valid sample (formulas of the vectorised part, at any sample j)
    def body_formulas(v):
        n, times, sat, arr, vec = setup(v)
        lo, hi = v.real("range_lo"), v.real("range_hi")
        my = v.real("max_yaw", gt=0, le=90)
        ay = v.real("abs_yaw")
        v.assume(z3.And(ay.e < 180, ay.e >= 0, ay.e != 180 - my.e))
        m, t = 180 - my, v.real("turns")
        v.assume(equal(t * m, ay))
        v.lemma("turns", z3.And(t.e >= 0, t.e < 2, core.zb(t < 1) == core.zb(ay < m)))
        v.lemma("quotient", equal(ay / m, t))
        v.lemma("remainder of a yaw below 180 degrees", core.zb(core.mod(ay, m) == core.ite(core.zb(ay < m), ay, ay - m)))
        j = z3.Int("j")
        v.assume(z3.And(j >= 0, j < n))
        seen = {}

        def rule(interp, s, it, env):
            if not isinstance(it, FSeq):
                raise Unsupported("loop over another sequence")
            seen.update(it=it, env=env)
            return True
        W.pop("j", None)
        LOOP_RULES["*"] = rule
        try:
            rx = PV(n, arr("rx"), arr("rxv"))
            v.call(ro_coverage._collect_ro_series, sat, times, rx, arr("u"), arr("w"), arr("b"), my, (lo, hi))
        finally:
            LOOP_RULES.pop("*", None)
        if "it" not in seen:
            raise Unsupported("no loop over the valid samples")
        it, e = seen["it"], seen["env"].vars
        v.ensure("all samples are considered", it.base_n == n)
        T, Rr = vec("tx", j), vec("rx", j)
        D = [a - b for a, b in zip(T, Rr)]
        tp, pitch, yaw = roles(e, vec)
        P = [tp.f(c, j) for c in range(3)]
        DD, TD = v.real("DD"), v.real("TD")
        v.assume(z3.And(equal(DD, dot(D, D)), equal(TD, dot(T, D))))
        q = v.real("q")                      # fraction of the way from the transmitter to the receiver
        v.assume(equal(q * DD, TD))
        v.assume(DD > 0)
        v.lemma("tangent point lies on the line", z3.And(*[equal(P[c], T[c] - q * D[c]) for c in range(3)]))
        v.lemma("and is perpendicular to it, hence nearest the centre", equal(dot([T[c] - q * D[c] for c in range(3)], D), 0))
        a, b, c_ = [x - q * y for x, y in zip(T, D)], None, None
        v.lemma("product of the two sides", equal(dot([a[c] - T[c] for c in range(3)], [a[c] - Rr[c] for c in range(3)]), -q * (1 - q) * DD))
        v.lemma("negative exactly between the ends", core.zb(-q * (1 - q) * DD < 0) == z3.And(q.e > 0, q.e < 1))
        s = v.real("sides")
        v.assume(equal(s, -q * (1 - q) * DD))
        v.lemma("product of the two sides at the tangent point", equal(dot([P[c] - T[c] for c in range(3)], [P[c] - Rr[c] for c in range(3)]), s))
        # the tangent point by name (the condition speaks of it only through its components)
        p = [v.real(f"tangent_{c}") for c in "xyz"]
        v.assume(z3.And(*[equal(p[c], P[c]) for c in range(3)]))
        cond = z3.substitute(core.zb(it.cond(j)), *[(core.zr(P[c]), core.zr(p[c])) for c in range(3)])
        v.lemma("product of the two sides, named", equal(dot([p[c] - T[c] for c in range(3)], [p[c] - Rr[c] for c in range(3)]), s))
        y = v.real("yaw")
        v.assume(equal(y, yaw.get(j)))
        cond = z3.substitute(cond, (core.zr(yaw.get(j)), core.zr(y)))
        v.lemma("the condition, named", core.zb(it.cond(j)) == cond)
        v.lemma("sign of the product", core.zb(s < 0) == z3.And(q.e > 0, q.e < 1))
        v.assume(equal(ay, abs(y)))
        v.ensure("valid exactly when between the satellites and within the yaw limit fore or aft", cond == z3.And(q.e > 0, q.e < 1, z3.Or(ay.e < my.e, 180 - ay.e < my.e)))
        N, Bv, U = vec("w", j), vec("b", j), vec("u", j)
        hor = [D[c] - Bv[c] * dot(Bv, D) for c in range(3)]
        ver = [D[c] - N[c] * dot(N, D) for c in range(3)]
        v.ensure("yaw is the horizontal direction", equal(y, core.fn("atan2", dot(hor, N), dot(hor, U)) * 180 / Num(core.PI)))
        v.ensure("pitch is the in-plane direction", equal(pitch.get(j), core.fn("atan2", dot(ver, Bv), dot(ver, U)) * 180 / Num(core.PI)))
    V.vc("_collect_ro_series: tangent point and validity of a sample", body_formulas)

    # -- 2. one iteration of the arc loop from any state satisfying the invariant
    for state in ("no arc open", "arc open"):
        def body_loop(v, state=state):
            n, times, sat, arr, vec = setup(v)
            lo, hi = v.real("range_lo"), v.real("range_hi")
            my = v.real("max_yaw", gt=0, le=90)
            ran = {}

            def rule(interp, s, it, env):
                if not isinstance(it, FSeq):
                    raise Unsupported("loop over another sequence")
                j, st = z3.Int("j"), z3.Int("first")
                VAL = lambda k: core.zb(it.cond(k))
                IN = lambda k: z3.And(HT(k) > lo.e, HT(k) < hi.e)
                good = lambda k: z3.And(VAL(k), IN(k))
                assigned = seq._assigned(s.body)
                carried = [k for k in assigned if k in env.vars and env.vars[k] is None]
                logs = [k for k, x in env.vars.items() if isinstance(x, list) and not x]
                if len(carried) != 1 or len(logs) != 1:
                    raise Unsupported("loop state of another shape")
                core.assume(z3.And(j >= 0, j < n, VAL(j)))
                W["j"] = j
                tp, pitch, yaw = roles(env.vars, vec)
                W["tp"] = lambda k: [tp.f(c, k) for c in range(3)]
                pts = None
                if state == "no arc open":
                    core.assume(z3.Not(z3.And(j > 0, good(j - 1))))
                    env.vars[carried[0]] = None
                else:
                    core.assume(z3.And(j > 0, good(j - 1), st >= 0, st < j))
                    pts = Pts(st, j - 1)
                    env.vars[carried[0]] = {"tx": "tx", "is_rising": core.mkb(z3.Bool("rising_first")), "points": pts}
                env.vars[logs[0]] = log = []
                interp.assign(s.target, Num(j), env)
                from vf.interp import ContinueX
                try:
                    interp.block(s.body, env)
                except ContinueX:
                    pass
                after, log = env.vars[carried[0]], env.vars[logs[0]]
                last = core.zb(core.mkb(z3.Or(j + 1 >= n, z3.Not(VAL(j + 1)))))
                ran["yes"] = True

                def arc(a, upto, label):
                    """a must be the arc of samples first..upto."""
                    first = st if state == "arc open" else j
                    p = a["points"]
                    v.ensure(label + ": transmitter", z3.BoolVal(a["tx"] == "tx"))
                    if state == "arc open":
                        v.ensure(label + ": the same arc continued", z3.BoolVal(p is pts) if isinstance(p, Sym) else z3.BoolVal(False))
                        more = pts.more
                        v.ensure(label + ": rising as at its first sample", core.zb(a["is_rising"]) == z3.Bool("rising_first"))
                    else:
                        more = p if isinstance(p, list) else None
                        v.ensure(label + ": rising when the transmitter is ahead at its first sample", core.zb(a["is_rising"]) == core.zb(pitch.get(j) > -90))
                    v.ensure(label + ": this sample added" if upto else label + ": this sample not added", z3.BoolVal(more is not None and len(more) == (1 if upto else 0)))
                    if more and upto:
                        r = more[0]
                        v.ensure(label + ": time and place of the sample", z3.And(equal(r["time"], STime(TM(j))), z3.BoolVal(isinstance(r["tangent_point"], Geo)), r["tangent_point"].j == j))
                        v.ensure(label + ": angles of the sample", z3.And(equal(r["rx_tx_pitch"], pitch.get(j)), equal(r["rx_tx_yaw"], yaw.get(j))))
                        az = r["tp_tx_azimuth"]
                        ok = isinstance(az, Az) and isinstance(az.a, At) and isinstance(az.b.g, Geo)
                        v.ensure(label + ": azimuth of the transmitter from the tangent point", z3.And(z3.BoolVal(ok), *[equal(x, y) for x, y in zip(az.a.p, vec("tx", j))], az.b.g.j == j, equal(az.b.t, STime(TM(j))), equal(az.a.t, STime(TM(j)))) if ok else z3.BoolVal(False))
                v.ensure("at most one arc reported", z3.BoolVal(len(log) <= 1))
                if state == "arc open":
                    v.ensure("an arc is reported exactly when it ends here or ended before", z3.BoolVal(bool(log)) == z3.Or(z3.Not(good(j)), last))
                else:
                    v.ensure("an arc is reported exactly when it starts and ends here", z3.BoolVal(bool(log)) == z3.And(good(j), last))
                v.ensure("an arc stays open exactly when this sample is good and the next one is not excluded", z3.BoolVal(after is not None) == z3.And(good(j), z3.Not(last)))
                if log:
                    arc(log[0], core.decide(good(j)), "reported arc")
                if after is not None:
                    arc(after, True, "open arc")
                return True
            LOOP_RULES["*"] = rule
            try:
                rx = PV(n, arr("rx"), arr("rxv"))
                v.call(ro_coverage._collect_ro_series, sat, times, rx, arr("u"), arr("w"), arr("b"), my, (lo, hi))
            finally:
                LOOP_RULES.pop("*", None)
                W.pop("j", None)
            if not ran:
                raise Unsupported("no loop over the valid samples")
        V.vc(f"_collect_ro_series: one step of the arc loop, {state}", body_loop)

    # -- 3. the invariant is carried from one visited sample to the next, and no arc is open at the end
    def body_glue(v):
        n = v.int("samples", ge=1).e
        VAL, IN = z3.Function("valid", I, B), z3.Function("in_range", I, B)
        j, k = z3.Ints("j k")
        good = lambda x: z3.And(VAL(x), IN(x))
        last = z3.Or(j + 1 >= n, z3.Not(VAL(j + 1)))
        openafter = z3.And(good(j), z3.Not(last))
        v.assume(z3.And(j >= 0, j < n, VAL(j)))
        i = seq.gvar("i")
        v.ensure("after the last valid sample no arc is open", z3.Implies(z3.ForAll([i], z3.Implies(z3.And(i > j, i < n), z3.Not(VAL(i)))), z3.Not(openafter)))
        v.assume(z3.And(k > j, k < n, VAL(k), z3.ForAll([i], z3.Implies(z3.And(i > j, i < k), z3.Not(VAL(i))))))
        v.ensure("at the next valid sample an arc is open exactly when the sample before is good", openafter == z3.And(k > 0, good(k - 1)), hints=[z3.Implies(z3.And(x > j, x < k), z3.Not(VAL(x))) for x in (j + 1, k - 1)])
    V.vc("arc loop: invariant from sample to sample", body_glue)
    table(V)


def table(V):
    """collect_ro_observations: the receiver's frame, the arcs of all transmitters and the table of them."""
    from itertools import chain
    from shapely.geometry import MultiPoint, Point
    from vf import mat
    from vf.tables import TFrame
    from vf.geo import GPoint
    mat.install()
    NA, NP = z3.Function("arcs_of", I, I), z3.Function("points_of", I, I, I)
    NAME, RISING = z3.Function("name_of", I, I), z3.Function("rising", I, I, B)
    F3 = {c: z3.Function("pt_" + c, I, I, I, R) for c in ("time", "lon", "lat", "h", "rx_tx_pitch", "rx_tx_yaw", "tp_tx_azimuth")}

    class Tx(Sym):
        def __init__(self, q):
            self.q = q

        def _subst(self, p):
            return Tx(z3.substitute(self.q, *p))

        def _isinstance(self, c):
            return c is Satellite

    class Place(Sym):
        def __init__(self, q, a, p):
            self.at = (q, a, p)
            self.elevation, self.longitude, self.latitude = (Obj(**{u: Num(F3[c](q, a, p))}) for c, u in (("h", "m"), ("lon", "degrees"), ("lat", "degrees")))

        def _subst(self, s):
            return Place(*[z3.substitute(x, *s) for x in self.at])

    class Many(Sym):
        def __init__(self, s):
            self.s = s

        def _subst(self, p):
            return Many(core.subst(self.s, p))

    def point(q, a, p):
        return dict(time=STime(F3["time"](q, a, p)), tangent_point=Place(q, a, p), **{c: Num(F3[c](q, a, p)) for c in ("rx_tx_pitch", "rx_tx_yaw", "tp_tx_azimuth")})

    def arcs(q):
        return Seq(NA(q), lambda a: {"tx": Num(NAME(q)), "is_rising": core.mkb(RISING(q, zi(a))), "points": Seq(NP(q, zi(a)), lambda p: point(q, zi(a), zi(p)))})

    old = MODELS[gpd.GeoDataFrame]

    def gdf(interp, args, kw):
        x = args[0] if args else None
        if isinstance(x, Seq) and not set(kw) - {"crs"} and isinstance(x.get(seq.CANON[0]), dict):
            ctx.trust("geopandas: a table built from a list of records has one row per record, in order")
            return TFrame(x.n, {k: (lambda j, k=k: x.get(j)[k]) for k in x.get(seq.CANON[0])}, "range")
        return old(interp, args, kw)

    class Empty(Sym):
        pass

    def body(v, single):
        n = v.int("samples", ge=1).e
        X = {k: [z3.Function(f"{k}{c}", I, R) for c in "xyz"] for k in ("rx", "rxv")}
        arr = lambda k: mat.Mat3(n, lambda c, j: Num(X[k][c](zi(j))))
        times = Seq(n, lambda j: STime(TM(j)))
        pv = PV(n, arr("rx"), arr("rxv"))
        rx = SObj(Satellite, dict(name="rx", orbit=Orb(pv, times), instruments=[], type="satellite"))
        my, lo, hi, sample = v.real("max_yaw"), v.real("range_lo"), v.real("range_hi"), v.real("sample_elevation")
        a, b = z3.Ints("qa qb")
        v.assume(z3.ForAll([a], NA(a) >= 0, patterns=[NA(a)]))
        v.assume(z3.ForAll([a, b], NP(a, b) >= 1, patterns=[NP(a, b)]))
        G = z3.Function("transmitter_at", I, I)
        nt = z3.IntVal(1) if single else v.int("transmitters", ge=0).e
        txs = Tx(G(z3.IntVal(0))) if single else Seq(nt, lambda j: Tx(G(zi(j))))

        def series(interp, args, kw):
            names = ["transmitter", "times", "rx_pv", "rx_v_u", "rx_n_u", "rx_b_u", "max_yaw", "range_elevation"]
            A = dict(zip(names, args))
            A.update(kw)
            t = A["transmitter"]
            if not isinstance(t, Tx) or set(A) != set(names):
                raise Unsupported("series of other arguments")
            core.oblig("contract: the times, the receiver's motion and the limits are passed on", z3.And(z3.BoolVal(A["times"] is times and A["rx_pv"] is pv), equal(A["max_yaw"], my), equal(A["range_elevation"][0], lo), equal(A["range_elevation"][1], hi)))
            j = z3.Int("frame_j")
            P, W_ = [Num(X["rx"][c](j)) for c in range(3)], [Num(X["rxv"][c](j)) for c in range(3)]
            N_ = [P[(c + 1) % 3] * W_[(c + 2) % 3] - P[(c + 2) % 3] * W_[(c + 1) % 3] for c in range(3)]
            ln = lambda q: core.fn("sqrt", q[0] * q[0] + q[1] * q[1] + q[2] * q[2])
            for nm, arg, q in (("along the velocity", "rx_v_u", W_), ("normal to the orbit plane", "rx_n_u", N_), ("along the position", "rx_b_u", P)):
                core.oblig(f"unit vector {nm}", z3.Implies(z3.And(j >= 0, j < n), z3.And(*[equal(A[arg].f(c, j), q[c] / ln(q)) for c in range(3)])))
            return arcs(t.q)
        from vf.interp import CONTRACTS
        CONTRACTS[ROT + "_collect_ro_series"] = series
        CONTRACTS[ROT + "_get_empty_ro_frame"] = lambda interp, a, k: Empty()
        saved = {k: MODELS.get(k) for k in (gpd.GeoDataFrame, MultiPoint, chain.from_iterable)}
        MODELS[gpd.GeoDataFrame] = gdf
        MODELS[MultiPoint] = lambda interp, a, k: Many(a[0]) if isinstance(a[0], Seq) else NotImplemented
        MODELS[chain.from_iterable] = lambda interp, a, k: flatten(a[0])
        try:
            out = v.resolve(v.call(collect_ro_observations, rx, txs, times, sample, my, (lo, hi)))
        finally:
            for k, x in saved.items():
                MODELS.pop(k, None) if x is None else MODELS.__setitem__(k, x)
        q, c, k, k2, t = z3.Ints("q c k k2 t")
        v.assume(z3.And(q >= 0, q < nt, c >= 0, c < NA(G(q))))
        if isinstance(out, Empty):
            v.ensure("no table only when there are no arcs", z3.BoolVal(False), hints=v.deep((q, c)))
            return
        if not isinstance(out, TFrame) or not hasattr(out, "perm"):
            raise Unsupported("table of another shape")
        v.assume(z3.And(k >= 0, k <= k2, k2 < out.n))
        v.ensure("in order of time", core.zb(out.cols["time"](k) <= out.cols["time"](k2)))
        T = lambda j: out.cols["time"](j).e

        def where(j):
            e = T(j)
            if not z3.is_app(e) or not e.decl().eq(F3["time"]):
                raise Unsupported("time of another kind")
            return e.arg(0), e.arg(1), e.arg(2)
        w = z3.Int("w")
        Q, Ar, S = where(k)
        v.ensure("a row is an arc of one of the transmitters", z3.Exists([w], z3.And(w >= 0, w < nt, Q == G(w), Ar >= 0, Ar < NA(G(w)))))
        H = lambda p: F3["h"](Q, Ar, p)
        ab = lambda x: z3.If(x >= 0, x, -x)
        v.ensure("sampled at a point of the arc", z3.And(S >= 0, S < NP(Q, Ar)))
        v.assume(z3.And(t >= 0, t < NP(Q, Ar)))
        v.ensure("none of its points is nearer the sample elevation", ab(H(S) - sample.e) <= ab(H(t) - sample.e))
        col = lambda x: out.cols[x](k)
        v.ensure("labels", z3.And(z3.BoolVal(col("receiver") == "rx"), equal(col("transmitter"), Num(NAME(Q))), core.zb(col("is_rising")) == RISING(Q, Ar)))
        at = lambda p: [Num(F3[x](Q, Ar, p)) for x in ("lon", "lat", "h")]
        pos = col("position")
        v.ensure("position of the sample", z3.And(*[equal(x, y) for x, y in zip(pos.c, at(S))]) if isinstance(pos, GPoint) and len(pos.c) == 3 else z3.BoolVal(False))
        v.ensure("angles of the sample", z3.And(*[equal(col(x), Num(F3[x](Q, Ar, S))) for x in ("rx_tx_pitch", "rx_tx_yaw", "tp_tx_azimuth")]))
        v.ensure("from its first point to its last", z3.And(equal(col("start"), STime(F3["time"](Q, Ar, z3.IntVal(0)))), equal(col("end"), STime(F3["time"](Q, Ar, NP(Q, Ar) - 1)))))
        g = col("geometry")
        if not isinstance(g, Many):
            raise Unsupported("geometry of another kind")
        v.ensure("every tangent point of the arc", z3.And(g.s.n == NP(Q, Ar), *[equal(x, y) for x, y in zip(list(g.s.get(t)), at(t))]))
        flat = FLATS[-1]
        row = out.inv(flat.r(q, c)) if isinstance(flat, seq.FlatSeq) else out.inv(c)
        Q2, A2, _ = where(row)
        v.ensure("every arc has a row", z3.And(row >= 0, row < out.n, Q2 == G(q), A2 == c), hints=v.deep((q, c)) + v.instances(flat.r(q, c) if isinstance(flat, seq.FlatSeq) else c))
        r1, r2 = where(k)[:2], where(k2)[:2]
        v.ensure("as many rows as arcs", out.n == flat.n)

    FLATS = []

    def flatten(x):
        if isinstance(x, list):
            r = seq.of_list(x[0]) if len(x) == 1 and isinstance(x[0], list) else x[0] if len(x) == 1 else None
            if r is None:
                raise Unsupported("chain of lists")
        else:
            r = seq.FlatSeq(x.n, lambda i: x.get(i))
        FLATS.append(r)
        return r
    V.vc("collect_ro_observations, one transmitter", lambda v: body(v, True))
    V.vc("collect_ro_observations, a list of transmitters", lambda v: body(v, False))


class Orb(Sym):
    def __init__(self, pv, times):
        self.pv, self.times = pv, times

    def to_tle(self):
        return self

    def get_orbit_track(self, times, try_repeat=None):
        if times is not self.times:
            raise Unsupported("track at other times")
        return self.pv

    def _subst(self, p):
        return self
