"""P10 train and Walker constellations."""
import math, json
from datetime import timedelta
from fractions import Fraction as F
import z3
from vf.session import Fail, Skip, expect, expect_close, angdiff
from vf.spec import M, congruent
from vf import core, orb, seq
from vf.core import Num, zb, equal, Unsupported, SymRaise, Sym, ctx
from vf.seq import Seq, zi
from vf.interp import SObj, CONTRACTS
from vf.models import SText, SPad, DIGITS
from vf.tmodel import stime, sdelta
from vf.orb import KINDS, sym_orbit, gen_orbit, make, elements, tle_fields, tle_lines, epoch_of, gen_epoch, TwoLineElements
from tatc import utils
from tatc.schemas import Satellite, Instrument, TrainConstellation, WalkerConstellation, WalkerConfiguration
from pydantic import ValidationError

ASSUMPTIONS = ["get_derived_orbit advances mean anomaly and node as proved under P05 (its contract is used here)",
               "decimal text of whole numbers: the number of digits does not decrease with the number"]


# ------------------------------------------------------------------ concrete oracle
def base_elements(d):
    """(mean, raan, n) and a reader for members' (mean, raan, ecc) of an orbit description."""
    if d["kind"] == "tle":
        f = tle_fields(*d["lines"])
        return f["mean"], f["raan"], f["n"]
    x = elements(d)
    return x["mean"], x["raan"], x["n"]


def build(d):
    return TwoLineElements(tle=list(d["lines"])) if d["kind"] == "tle" else make(d)


def check_members(sat, o, d, ms, want, name, n, instruments, what):
    expect(isinstance(ms, list) and len(ms) == n, f"{what}: {len(ms)} members, expected {n}", "count")
    mean, raan, _ = base_elements(d)
    w = len(str(n))
    names = []
    for k, m in enumerate(ms):
        expect(type(m) is Satellite and m.type == "satellite", f"{what}: member {k} is {type(m)}", "type")
        expect(m.name == f"{name} {k + 1:0{w}d}", f"{what}: member {k} named {m.name!r}", "name")
        names.append(m.name)
        dm, dr = want(k)
        if d["kind"] == "tle":
            f = tle_fields(*m.orbit.tle)
            tol = 2e-4 + 1e-7 * abs(dm)
            expect(abs(angdiff(f["mean"], mean + dm)) < tol, f"{what}: member {k} mean anomaly {f['mean']} expected {(mean + dm) % 360}", "anomaly")
            expect(abs(angdiff(f["raan"], raan + dr)) < 2e-4, f"{what}: member {k} node {f['raan']} expected {(raan + dr) % 360}", "raan")
        else:
            e = elements(d)["ecc"]
            tol = 1e-6 + 1e-8 * abs(dm)
            tv = orb.m2t((mean + dm) % 360, e)
            expect(abs(angdiff(m.orbit.true_anomaly, tv)) < tol, f"{what}: member {k} true anomaly {m.orbit.true_anomaly} expected {tv % 360}", "anomaly")
            expect(abs(angdiff(m.orbit.right_ascension_ascending_node, raan + dr)) < 1e-6 + 1e-9 * abs(dr), f"{what}: member {k} node {m.orbit.right_ascension_ascending_node} expected {(raan + dr) % 360}", "raan")
            expect(m.orbit.altitude == d["altitude"] and m.orbit.epoch == epoch_of(d["epoch"]), f"{what}: member {k} altitude, epoch", "frame")
        expect([i.model_dump() for i in m.instruments] == [i.model_dump() for i in instruments], f"{what}: member {k} instruments", "instruments")
    expect(sorted(names) == names and len(set(names)) == n, f"{what}: names do not sort in order", "name")
    ids = [id(i) for m in ms for i in m.instruments] + [id(i) for i in sat.instruments]
    expect(len(set(ids)) == len(ids), f"{what}: instruments shared between members", "shared")
    keep = [[i.model_dump() for i in m.instruments] for m in ms]
    ms[0].instruments[0].name = "changed"
    expect(all([i.model_dump() for i in m.instruments] == q for m, q in list(zip(ms, keep))[1:]) and sat.instruments[0].name != "changed", f"{what}: instruments shared", "shared")


def insts(i):
    return [Instrument(name=f"i{k}", field_of_regard=10.0 + k, min_access_time=timedelta(seconds=k)) for k in range(i["ninst"])]


def check_train(i):
    d = i["orbit"]
    o = build(d)
    iv = timedelta(seconds=i["interval"])
    T = i["n"]
    ins = insts(i)
    c = TrainConstellation(name=i["name"], orbit=o, number_satellites=T, interval=iv, repeat_ground_track=i["repeat"], instruments=ins)
    before = c.model_dump_json()
    ms = c.generate_members()
    expect(c.model_dump_json() == before, "constellation modified", "frame")
    _, _, n = base_elements(d)
    days = iv / timedelta(days=1)
    check_members(c, o, d, ms, lambda k: (-360.0 * n * days * k, 360.0 * days * k if i["repeat"] else 0.0), i["name"], T, ins, f"train {i}")


def check_walker(i):
    d = i["orbit"]
    o = build(d)
    T, P, R = i["n"], i["p"], i["f"]
    ins = insts(i)
    kw = dict(name=i["name"], orbit=o, number_satellites=T, number_planes=P, relative_spacing=R, configuration=i["config"], instruments=ins)
    ok = T >= 1 and 1 <= P <= T and 0 <= R < P
    try:
        c = WalkerConstellation(**kw)
    except ValidationError:
        expect(not ok, f"valid Walker pattern {T}/{P}/{R} rejected", "rejects")
        return
    expect(ok, f"inconsistent Walker pattern {T}/{P}/{R} accepted", "accepts")
    before = c.model_dump_json()
    ms = c.generate_members()
    expect(c.model_dump_json() == before, "constellation modified", "frame")
    S = -(-T // P)
    span = 360.0 if i["config"] == "delta" else 180.0
    check_members(c, o, d, ms, lambda k: ((k % S) * 360.0 / S + (k // S) * 360.0 * R / T, (k // S) * span / P), i["name"], T, ins, f"Walker {i['config']} {T}/{P}/{R} {d}")


def check_pad(i):
    w = len(str(i["max"]))
    got = utils.zero_pad(i["name"], i["max"], i["k"])
    expect(got == i["name"] + " " + "0" * (w - len(str(i["k"]))) + str(i["k"]), f"zero_pad{i}: {got!r}", "name")


def gen_d(r):
    if r.random() < 0.3:
        return dict(kind="tle", lines=tle_lines(r, epoch_of(gen_epoch(r)), dict(cat="25544"), rich=False))
    return gen_orbit(r, ("circular", "sso", "keplerian", "circular", "keplerian"))


def concrete(C):
    def gt(r):
        return dict(orbit=gen_d(r), n=r.choice([1, 2, 3, 9, 10, 11, 12, r.randrange(1, 30)]), interval=r.choice([60.0, 600.0, 3600.0, r.uniform(1, 90000), 86400.0]), repeat=r.random() < 0.5,
                    ninst=r.choice([1, 2, 3]), name=r.choice(["A", "Sat 1", "é-x"]))
    C.cases("trains", gt, check_train, 250, "trains of 1..29 members, intervals 1 s..25 h, element-set, circular, sun-synchronous and elliptic leads", share=0.4)

    def gw(r):
        T = r.choice([1, 2, 3, 5, 7, 10, 12, 13, 24, 30, r.randrange(1, 40)])
        P = r.choice([1, T, r.randrange(1, T + 1), r.randrange(1, T + 1), r.choice([0, T + 1, T + 5, -1])])
        R = r.choice([0, max(P - 1, 0), r.randrange(0, max(P, 1)), r.randrange(0, max(P, 1)), r.choice([P, P + 1, -1])])
        return dict(orbit=gen_d(r), n=T, p=P, f=R, config=r.choice(["delta", "star"]), ninst=r.choice([1, 2]), name=r.choice(["W", "Wal ker"]))
    C.cases("Walker patterns", gw, check_walker, 500, "T 1..40, P -1..T+5, F -1..P+1, delta and star", share=0.8)

    def gp(r):
        m = r.choice([1, 9, 10, 99, 100, 1000, r.randrange(1, 10**6)])
        return dict(name=r.choice(["", "x", "Sat"]), max=m, k=r.choice([1, m, r.randrange(1, m + 1)]))
    C.cases("padding", gp, check_pad, 300, "numbers up to 10^6", share=0.9)


# ------------------------------------------------------------------ deductive
class Instr(Sym):
    """the constellation's list of instruments, or a copy made for one member."""

    def __init__(self, copied=False):
        self.copied = copied

    def _subst(self, p):
        return self

    def _deepcopy(self):
        return Instr(bool(ctx.gvars))

    def _copy(self):
        return Instr(False)  # a list of its own, of the same instruments

    def _equal(self, o):
        return z3.BoolVal(isinstance(o, Instr))

    def _isinstance(self, c):
        return c is list


class Derived(Sym):
    def __init__(self, dm, dr):
        self.dm, self.dr = dm, dr

    def _subst(self, p):
        return Derived(core.subst(self.dm, p), core.subst(self.dr, p))


class Lead(Sym):
    """any lead orbit: contract of get_derived_orbit (P05) and get_mean_motion (P02, P04)."""

    def __init__(self, n):
        self.n = n

    def _subst(self, p):
        return self

    def get_derived_orbit(self, dm, dr):
        ctx.trust("contract of get_derived_orbit (proved under P05)")
        return Derived(dm, dr)

    def get_mean_motion(self, *a):
        ctx.trust("contract of get_mean_motion (proved under P02/P04)")
        return self.n


class Nm(Sym):
    def __init__(self, s):
        self.s = s

    def _subst(self, p):
        return self

    def __add__(self, o):
        return SText(self) + o

    def _equal(self, o):
        return z3.BoolVal(o is self)

    def _isinstance(self, c):
        return c is str


PADDED = z3.Function("padded_name", z3.IntSort(), z3.IntSort(), z3.IntSort())


def pad_contract(name):
    def f(interp, a, k):
        if k:
            raise Unsupported("zero_pad keywords")
        if a[0] is not name:
            raise Unsupported("other name")
        return Num(PADDED(zi(a[1]), zi(a[2])))
    return f


def members(v, name, T, out, want):
    if not isinstance(out, Seq):
        raise Unsupported("members of another shape")
    v.ensure("as many members as requested", out.n == T.e)
    k = z3.Int("k")
    v.assume(z3.And(k >= 0, k < T.e))
    m = out.get(k)
    if not isinstance(m, SObj):
        raise Unsupported("member of another shape")
    v.ensure("members are satellites", m.cls is Satellite)
    v.ensure("named by position", equal(m.fields["name"], Num(PADDED(T.e, k + 1))))
    ins = m.fields["instruments"]
    if not isinstance(ins, Instr):
        raise Unsupported("instruments of a member not recognised")
    v.ensure("own copy of the instruments", z3.BoolVal(ins.copied))
    o = m.fields["orbit"]
    if not isinstance(o, Derived):
        raise Unsupported("orbit of another shape")
    dm, dr = want(Num(k))
    v.ensure("mean anomaly by the pattern", equal(o.dm, dm))
    v.ensure("node by the pattern", equal(o.dr, dr))


def deductive(V):
    def body_pad(v):
        nm = Nm("name")
        mx, k = v.int("max", ge=1), v.int("k", ge=1)
        v.assume(k <= mx)
        r = v.call(utils.zero_pad, nm, mx, k)
        if not isinstance(r, SText):
            raise Unsupported("text")
        parts = [p for p in r.parts]
        w = parts[-1].w if isinstance(parts[-1], SPad) else None
        if w is None:
            raise Unsupported("unpadded number")
        v.ensure("the name, a space and the padded number", parts[0] is nm and "".join(x for x in parts[1:-1] if isinstance(x, str)) == " " and zb(equal(parts[-1].x, k)) is not None)
        v.ensure("the number", equal(parts[-1].x, k))
        v.assume(z3.Implies(k.e <= mx.e, DIGITS(k.e) <= DIGITS(mx.e)))
        v.ensure("wide enough for the largest number, the same width for all", z3.And(zi(w) == DIGITS(mx.e), DIGITS(k.e) <= zi(w)))
    V.vc("zero_pad", body_pad, replay=lambda i: check_pad(dict(name="x", max=int(i.get("max", 10)), k=int(i.get("k", 1)))))

    for rep in (True, False):
        def body(v, rep=rep):
            name, lead, T, iv = Nm("name"), Lead(v.real("n", gt=0)), v.int("T", ge=1), sdelta(v, "interval")
            CONTRACTS["tatc.utils.zero_pad"] = pad_contract(name)
            o = SObj(TrainConstellation, dict(name=name, orbit=lead, instruments=Instr(), type="train", number_satellites=T, interval=iv, repeat_ground_track=rep))
            out = v.call(TrainConstellation.generate_members, o)
            days = Num(iv.e) * F(1, 86400)
            members(v, name, T, out, lambda k: (k * (-360) * lead.n * days, k * 360 * days if rep else Num(z3.RealVal(0))))
        V.vc(f"train, {'repeating' if rep else 'free'} ground track", body,
             replay=lambda i, rep=rep: check_train(dict(orbit=dict(kind="circular", altitude=5e5, true_anomaly=10.0, inclination=50.0, raan=20.0, epoch=dict(days=0, secs=0, us=0)),
                                                        n=min(max(2, int(i.get("T", 3))), 200), interval=min(abs(float(i.get("interval", 600.0))) or 60.0, 1e6), repeat=rep, ninst=1, name="x")))

    for cf in WalkerConfiguration:
        def body(v, cf=cf):
            name, lead, T, P, R = Nm("name"), Lead(v.real("n", gt=0)), v.int("T", ge=1), v.int("P", ge=1), v.int("R", ge=0)
            v.assume(P <= T)
            v.assume(R < P)
            CONTRACTS["tatc.utils.zero_pad"] = pad_contract(name)
            o = SObj(WalkerConstellation, dict(name=name, orbit=lead, instruments=Instr(), type="walker", number_satellites=T, number_planes=P, relative_spacing=R, configuration=cf))
            out = v.call(WalkerConstellation.generate_members, o)
            S = Num(-z3.ToInt(-core.div(core.zr(T), core.zr(P))))
            span = 360 if cf == WalkerConfiguration.DELTA else 180
            v.lemma("at least one satellite per plane", S >= 1)
            members(v, name, T, out, lambda k: (core.mod(k, S) * (360 / S) + (k // S) * (360 * R / T), (k // S) * (span / P)))
        V.vc(f"Walker {cf.value}", body, replay=lambda i, cf=cf: check_walker(walk_case(i, cf.value)))

    def body_valid(v):
        T, P, R = v.int("T"), v.int("P"), v.int("R")
        name, lead = Nm("name"), Lead(v.real("n", gt=0))
        ok = z3.And(T.e >= 1, P.e >= 1, P.e <= T.e, R.e >= 0, R.e < P.e)
        try:
            v.call(WalkerConstellation, name=name, orbit=lead, instruments=Instr(), number_satellites=T, number_planes=P, relative_spacing=R)
        except SymRaise:
            v.ensure("only inconsistent patterns are rejected", z3.Not(ok))
            return
        v.ensure("inconsistent patterns are rejected", ok)
    V.vc("Walker pattern validity", body_valid, replay=lambda i: check_walker(walk_case(i, "delta")))


def walk_case(i, cf):
    T = int(i.get("T", 5))
    if T > 400:
        raise Skip()
    return dict(orbit=dict(kind="circular", altitude=5e5, true_anomaly=10.0, inclination=50.0, raan=20.0, epoch=dict(days=0, secs=0, us=0)), n=T, p=int(i.get("P", 2)), f=int(i.get("R", 0)), config=cf, ninst=1, name="W")
