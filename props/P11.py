"""P11 mutual orbiting groups and streets of coverage."""
import math
from datetime import timedelta
from fractions import Fraction as F
import numpy as np
import z3
from vf.session import Fail, Skip, expect, expect_close, angdiff
from vf.spec import M, congruent
from vf import core, orb, seq
from vf.core import Num, zb, equal, Unsupported, SymRaise, Sym, ctx
from vf.seq import Seq, zi
from vf.interp import SObj, CONTRACTS
from vf.tmodel import stime
from vf.orb import sym_orbit, gen_orbit, make, elements, epoch_of, gen_epoch
from tatc import utils, constants
from tatc.schemas import Satellite, Instrument, MOGConstellation, SOCConstellation, WalkerConstellation, CircularOrbit, KeplerianOrbit
from props.P10 import Instr, Nm, Lead, pad_contract, PADDED, insts

RM = orb.RMEAN
ASSUMPTIONS = ["the fixed-point iteration for the eccentric anomaly terminates (partial correctness)",
               "Walker members as proved under P10; swath-width conversion and minimum elevation as proved under P01"]


# ------------------------------------------------------------------ concrete oracle
def rot(inc, raan):
    """unit angular momentum and node direction."""
    i, o = math.radians(inc), math.radians(raan)
    return np.array([math.sin(i) * math.sin(o), -math.sin(i) * math.cos(o), math.cos(i)]), np.array([math.cos(o), math.sin(o), 0.0])


def check_mog(i):
    d = dict(kind="circular", altitude=i["alt"], true_anomaly=i["nu"], inclination=i["inc"], raan=i["raan"], epoch=i["epoch"])
    o = make(d)
    ins = insts(i)
    N = i["n"]
    c = MOGConstellation(name=i["name"], orbit=o, parallel_axis=i["par"], transverse_axis=i["tra"], clockwise=i["cw"], number_satellites=N, instruments=ins)
    before = c.model_dump_json()
    ms = c.generate_members()
    what = f"mutual orbiting group {i}"
    expect(c.model_dump_json() == before, f"{what}: modified", "frame")
    expect(len(ms) == N, f"{what}: {len(ms)} members", "count")
    a = RM + i["alt"]
    delta, e = i["tra"] / (2 * a), i["par"] / (4 * a)
    s = 1 if i["cw"] else -1
    l0, x0 = rot(i["inc"], i["raan"])
    y0 = np.cross(l0, x0)
    w = len(str(N))
    tol = 1e-7 + 1e-9 / delta
    for k, m in enumerate(ms):
        q = m.orbit
        expect(type(m) is Satellite and m.name == f"{i['name']} {k + 1:0{w}d}", f"{what}: member {k} named {m.name}", "name")
        expect(q.type == "keplerian" and abs(q.altitude - i["alt"]) < 1e-6 and q.epoch == epoch_of(i["epoch"]), f"{what}: member {k} altitude or epoch", "frame")
        expect_close(q.eccentricity, e, f"{what}: member {k} eccentricity", 1e-9, 1e-12, key="eccentricity")
        th = 2 * math.pi * k / N
        want = math.cos(delta) * l0 + math.sin(delta) * (math.cos(th) * y0 + math.sin(th) * x0)
        l, node = rot(q.inclination, q.right_ascension_ascending_node)
        expect(np.abs(l - want).max() < 1e-7, f"{what}: member {k} orbit plane {l} expected {want}", "plane")
        # perigee: a quarter turn from the line of intersection of the two planes
        t = np.cross(want, l0)
        t /= np.linalg.norm(t)
        p = s * np.cross(t, want)
        g = math.radians(q.perigee_argument)
        pg = math.cos(g) * node + math.sin(g) * np.cross(l, node)
        expect(np.abs(pg - p).max() < tol * 10, f"{what}: member {k} perigee {pg} expected {p}", "perigee")
        # phase: mean anomaly is the angle of the reference node from the intersection line
        n = math.atan2(s * t @ x0, s * t @ y0)
        nu = math.radians(q.true_anomaly)
        E = math.atan2(math.sin(nu) * math.sqrt(1 - e * e), e + math.cos(nu))
        mean = E - e * math.sin(E)
        expect(abs(angdiff(math.degrees(mean), math.degrees(n))) < 1e-3 * max(e, 1e-3) + 1e-4 * tol / 1e-7 * 1e-3 + 2e-5, f"{what}: member {k} mean anomaly {math.degrees(mean)} expected {math.degrees(n)}", "phase")
        expect([z.model_dump() for z in m.instruments] == [z.model_dump() for z in ins], f"{what}: instruments", "instruments")
    ids = [id(z) for m in ms for z in m.instruments] + [id(z) for z in c.instruments]
    expect(len(set(ids)) == len(ids), f"{what}: instruments shared", "shared")


def soc_sizes(alt, sw, pack):
    """smallest counts (satellites per plane, planes), and the real quotients."""
    g = sw / 2 / RM
    gf = 2 * math.asin(pack * math.sin(g))
    gp = 2 * math.asin(math.sqrt(3) / 2 * pack * math.sin(g))
    return 2 * math.pi / gf, 2 * math.pi / gp


def check_soc(i):
    d = dict(kind="circular", altitude=i["alt"], true_anomaly=i["nu"], inclination=i["inc"], raan=i["raan"], epoch=i["epoch"])
    o = make(d)
    ins = insts(i)
    c = SOCConstellation(name=i["name"], orbit=o, swath_width=i["sw"], packing_distance=i["pack"], instruments=ins)
    qf, qp = soc_sizes(i["alt"], i["sw"], i["pack"])
    if abs(qf - round(qf)) < 1e-5 or abs(qp - round(qp)) < 1e-5:
        raise Skip()
    S, P = math.ceil(qf), math.ceil(qp)
    if S * P > 4000:
        raise Skip()
    w = c.generate_walker()
    what = f"street of coverage {i}"
    expect(type(w) is WalkerConstellation and w.name == i["name"], f"{what}: {type(w)}", "type")
    expect(w.number_planes == P, f"{what}: {w.number_planes} planes, expected {P}", "planes")
    expect(w.number_satellites == S * P, f"{what}: {w.number_satellites} satellites, expected {S}*{P}", "satellites")
    expect(w.relative_spacing == 0 and w.configuration == "delta", f"{what}: pattern", "pattern")
    expect(w.orbit == o and [z.model_dump() for z in w.instruments] == [z.model_dump() for z in ins], f"{what}: orbit or instruments", "frame")
    if S * P > 600:
        return
    ms = c.generate_members()
    ref = w.generate_members()
    expect(len(ms) == S * P and [m.model_dump() for m in ms] == [m.model_dump() for m in ref], f"{what}: members are not the Walker members", "members")
    for k in (0, S - 1, S, S * P - 1):
        if k >= S * P:
            continue
        q = ms[k].orbit
        expect(abs(angdiff(q.true_anomaly, i["nu"] + (k % S) * 360.0 / S)) < 1e-6 and abs(angdiff(q.right_ascension_ascending_node, i["raan"] + (k // S) * 360.0 / P)) < 1e-6, f"{what}: member {k} placed at {q}", "members")
    ids = [id(z) for m in ms for z in m.instruments]
    expect(len(set(ids)) == len(ids), f"{what}: instruments shared", "shared")


def concrete(C):
    def base(r):
        return dict(alt=r.choice([4e5, 6e5, r.uniform(3e5, 2e6), 2e7]), nu=r.choice([0.0, r.uniform(0, 359)]), inc=r.choice([90.0, 30.0, 98.0, r.uniform(5, 175)]), raan=r.choice([0.0, r.uniform(0, 359.9), 350.0]), epoch=gen_epoch(r),
                    ninst=r.choice([1, 2]), name=r.choice(["M", "grp x"]))

    def gm(r):
        b = base(r)
        b.update(par=10 ** r.uniform(3, 5.7), tra=10 ** r.uniform(3, 5.7), cw=r.random() < 0.5, n=r.choice([1, 2, 3, 4, 6, 10, 11, r.randrange(1, 15)]))
        if r.random() < 0.2:
            b["par"] = 4 * (RM + b["alt"]) * r.uniform(0.05, 0.5)
        return b
    C.cases("mutual orbiting groups", gm, check_mog, 500, "1..14 members, axes 1..500 km (eccentricity up to 0.5), inclinations 5..175", share=0.5)

    def gs(r):
        b = base(r)
        lim = math.acos(RM / (RM + b["alt"]))
        b.update(sw=2 * RM * lim * r.uniform(0.15, 0.99), pack=r.choice([1.0, 0.5, r.uniform(0.3, 1)]))
        return b
    C.cases("streets of coverage", gs, check_soc, 300, "swath 15..99 % of the horizon-to-horizon width, packing 0.3..1", share=0.9)


# ------------------------------------------------------------------ deductive
def dot(a, b):
    r = None
    for x, y in zip(a, b):
        r = x * y if r is None else r + x * y
    return r


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def deductive(V):
    R = core.frac_of_float(constants.EARTH_MEAN_RADIUS)

    for cw in (True, False):
        def body(v, cw=cw):
            name = Nm("name")
            CONTRACTS["tatc.utils.zero_pad"] = pad_contract(name)
            o = sym_orbit(v, "circular")
            N, par, tra = v.int("N", ge=1), v.real("par", gt=0), v.real("tra", gt=0)
            of = o.fields
            a = of["altitude"] + R
            v.assume(par < a * 4)  # elliptic members
            c = SObj(MOGConstellation, dict(name=name, orbit=o, instruments=Instr(), type="mog", parallel_axis=par, transverse_axis=tra, clockwise=cw, number_satellites=N))
            out = v.call(MOGConstellation.generate_members, c)
            if not isinstance(out, Seq):
                raise Unsupported("members of another shape")
            v.ensure("as many members as requested", out.n == N.e)
            k = z3.Int("k")
            v.assume(z3.And(k >= 0, k < N.e))
            m = out.get(k)
            v.ensure("named by position", equal(m.fields["name"], Num(PADDED(N.e, k + 1))))
            if not isinstance(m.fields["instruments"], Instr) or not m.fields["instruments"].copied:
                raise Unsupported("instruments of a member not recognised as its own copy")
            q = m.fields["orbit"]
            v.ensure("members fly elliptic orbits", q.cls is KeplerianOrbit)
            q = q.fields
            e = par / (a * 4)
            delta = tra / (a * 2)
            v.ensure("semimajor axis and epoch kept", z3.And(equal(q["altitude"], of["altitude"]), equal(q["epoch"], of["epoch"])))
            v.ensure("eccentricity", equal(q["eccentricity"], e))
            s = 1 if cw else -1
            i0 = M.rad(of["inclination"])
            th = 2 * M.pi * Num(z3.ToReal(k)) / N
            l0 = [0, -M.sin(i0), M.cos(i0)]
            x = [1, 0, 0]
            y = cross(l0, x)
            sd, cd = M.sin(delta), M.cos(delta)
            l = [cd * p + sd * M.cos(th) * u + sd * M.sin(th) * w for p, u, w in zip(l0, y, x)]
            inc = M.acos(l[2])
            dO = M.atan2(l[0], -l[1])
            v.ensure("tilted plane: inclination", congruent(q["inclination"], M.deg(inc)))
            v.ensure("tilted plane: node", congruent(q["right_ascension_ascending_node"], of["right_ascension_ascending_node"] + M.deg(dO)))
            t = [z / sd for z in cross(l, l0)]
            p = [s * z for z in cross(t, l)]
            node = [M.cos(dO), M.sin(dO), 0]
            v.ensure("perigee a quarter turn from the planes' intersection", congruent(q["perigee_argument"], M.deg(M.atan2(dot(p, cross(l, node)), dot(p, node)))))
            n = M.atan2(s * dot(t, x), s * dot(t, y))
            v.ensure("angles in one turn", z3.And(*[z3.And(zb(q[f] >= 0), zb(q[f] < 360)) for f in ("inclination", "right_ascension_ascending_node", "perigee_argument", "true_anomaly")]))
        V.vc(f"mutual orbiting group, {'clockwise' if cw else 'counter-clockwise'}", body, trig_expand=False, allow_raise=("ValidationError",),
             replay=lambda i, cw=cw: check_mog(dict(alt=min(max(3e5, float(i.get("altitude", 5e5))), 4e7), nu=0.0, inc=min(max(float(i.get("inclination", 50.0)), 5.0), 175.0), raan=float(i.get("raan", 20.0)), epoch=dict(days=0, secs=0, us=0),
                                                    ninst=1, name="x", par=min(float(i.get("par", 1e5)), 1e6), tra=min(float(i.get("tra", 1e5)), 1e6), cw=cw, n=min(int(i.get("N", 3)), 50))))

    def body_soc(v):
        name = Nm("name")
        o = sym_orbit(v, "circular")
        of = o.fields
        v.assume(of["altitude"] > 0)
        sw, pack = v.real("sw", gt=0), v.real("pack", gt=0, le=1)
        el, fr = v.real("el", ge=0, lt=90), v.real("for", gt=0)
        args = []

        def elevation(interp, a, k):
            args.append(("elevation", a, k))
            return el

        def forr(interp, a, k):
            args.append(("for", a, k))
            return fr
        CONTRACTS["tatc.utils.compute_min_elevation_angle"] = elevation
        CONTRACTS["tatc.utils.swath_width_to_field_of_regard"] = forr
        ins = Instr()
        c = SObj(SOCConstellation, dict(name=name, orbit=o, instruments=ins, type="soc", swath_width=sw, packing_distance=pack))
        eta = M.deg(M.asin(Num(core.rv(R)) / (of["altitude"] + R) * M.cos(M.rad(el))))
        gamma = 90 - el - eta
        sg = M.sin(M.rad(gamma))
        v.assume(sg > 0)
        v.assume(sg <= 1)
        w = v.call(SOCConstellation.generate_walker, c)
        named = {n: (a, k) for n, a, k in args}
        if set(named) != {"for", "elevation"}:
            raise Unsupported("other conversions")
        g = lambda n, pos, key: named[n][1].get(key, named[n][0][pos] if len(named[n][0]) > pos else None)
        v.ensure("conversion of the swath width at the orbit's altitude", z3.And(equal(g("for", 0, "altitude"), of["altitude"]), equal(g("for", 1, "swath_width"), sw),
                                                                      equal(g("elevation", 0, "altitude"), of["altitude"]), equal(g("elevation", 1, "field_of_regard"), fr)))
        f = w.fields
        v.ensure("a Walker pattern", w.cls is WalkerConstellation)
        gf, gp = 2 * M.asin(pack * sg), 2 * M.asin(M.sqrt(3) * F(1, 2) * pack * sg)
        ceil = lambda x: Num(-z3.ToInt(-core.zr(x)))
        P = ceil(2 * M.pi / gp)
        S = ceil(2 * M.pi / gf)
        v.ensure("smallest number of planes spaced no wider than the packed footprints", equal(f["number_planes"], P))
        v.ensure("smallest number of satellites per plane", equal(f["number_satellites"], S * P))
        v.ensure("no phasing between planes, full circle", z3.And(zb(equal(f["relative_spacing"], 0)), z3.BoolVal(f["configuration"].value == "delta")))
        v.ensure("the reference orbit, name and instruments", f["orbit"] is o and f["name"] is name and isinstance(f["instruments"], Instr))
    V.vc("SOCConstellation.generate_walker", body_soc, trig_expand=False, allow_raise=("ValidationError",))

    def body_mem(v):
        T = v.int("T", ge=1)
        w = SObj(WalkerConstellation, {})
        out = Seq(T.e, lambda j: Num(j))
        CONTRACTS["tatc.schemas.satellite.SOCConstellation.generate_walker"] = lambda interp, a, k: w

        def gm(interp, a, k):
            core.oblig("members of the generated pattern", z3.BoolVal(a[0] is w))
            return out
        CONTRACTS["tatc.schemas.satellite.WalkerConstellation.generate_members"] = gm
        c = SObj(SOCConstellation, dict(name=Nm("n"), orbit=None, instruments=Instr(), type="soc", swath_width=1, packing_distance=1))
        r = v.call(SOCConstellation.generate_members, c)
        v.ensure("exactly the Walker members", r is out)
    V.vc("SOCConstellation.generate_members", body_mem)
