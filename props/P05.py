"""P05 derived orbits."""
import math, copy, random
from datetime import timedelta
from fractions import Fraction as F
import z3
from vf.session import Fail, Skip, expect, expect_close, angdiff
from vf.spec import M, congruent
from vf import core, orb, seq
from vf.core import Num, Sym, Unsupported, zb, equal
from vf.interp import SObj, LOOP_RULES
from vf.tmodel import SLine, Satrec_, stime, STime, dt_secs
from vf.orb import KINDS, sym_orbit, gen_orbit, make, elements, tle_fields, desc_of, tle_lines, epoch_of, gen_epoch, TwoLineElements
from props.P03 import spec_m2t, spec_t2m
from tatc import utils, constants

ASSUMPTIONS = ["two-line-element orbits: any number of element sets by an arbitrary step of the loop over sets (each step replaces the two lines of its set and no others), and one to three sets unrolled",
               "catalogue number, designator and set numbers of a derived element set are not part of the property"]


def wrap_ok(x):
    return 0 <= x < 360


def check(i):
    d, dm, dr = i["orbit"], i["dm"], i["dr"]
    x = elements(d)
    o = make(d)
    before = o.model_dump()
    q = o.get_derived_orbit(dm, dr)
    what = f"{d} derived by ({dm}, {dr})"
    if d["kind"] == "sso":
        expect(q.type == "circular", f"{what}: type {q.type}", "type")
    else:
        expect(q.type == d["kind"], f"{what}: type {q.type}", "type")
    tol = 1e-6 + 1e-9 * (abs(dm) + abs(dr))
    want = orb.m2t((x["mean"] + dm) % 360.0, x["ecc"])
    expect(abs(angdiff(q.true_anomaly, want)) < tol, f"{what}: true anomaly {q.true_anomaly} expected {want % 360}", "anomaly")
    expect(wrap_ok(q.true_anomaly), f"{what}: true anomaly range", "range")
    expect(abs(angdiff(q.right_ascension_ascending_node, x["raan"] + dr)) < tol, f"{what}: node {q.right_ascension_ascending_node} expected {(x['raan'] + dr) % 360}", "raan")
    expect(abs(q.altitude - d["altitude"]) < 1e-6 and q.epoch == epoch_of(d["epoch"]), f"{what}: altitude/epoch", "frame")
    expect_close(q.inclination, x["incl"], f"{what}: inclination", 1e-9, 1e-7)
    for f in ("eccentricity", "perigee_argument", "orbital_period"):
        if f in before:
            expect(getattr(q, f) == before[f], f"{what}: {f} {getattr(q, f)} expected {before[f]}", "frame")
    expect(o.model_dump() == before, f"{what}: original modified", "original")


def check_tle(i):
    lines = [l for s in i["sets"] for l in s]
    o = TwoLineElements(tle=lines)
    keep = list(o.tle)
    q = o.get_derived_orbit(i["dm"], i["dr"])
    what = f"element sets {lines} derived by ({i['dm']}, {i['dr']})"
    expect(o.tle == keep, f"{what}: original modified", "original")
    expect(q is not o and len(q.tle) == len(lines), f"{what}: number of lines", "count")
    for k in range(len(lines) // 2):
        a, b = tle_fields(*lines[2 * k:2 * k + 2]), tle_fields(*q.tle[2 * k:2 * k + 2])
        w = f"{what}, set {k}"
        expect(abs((a["epoch"] - b["epoch"]).total_seconds()) < 2e-3, f"{w}: epoch {b['epoch']} expected {a['epoch']}", "epoch")
        tol = 1.2e-4 + 1e-9 * (abs(i["dm"]) + abs(i["dr"]))
        expect(abs(angdiff(b["mean"], a["mean"] + i["dm"])) < tol, f"{w}: mean anomaly {b['mean']} expected {a['mean'] + i['dm']}", "mean")
        expect(abs(angdiff(b["raan"], a["raan"] + i["dr"])) < tol, f"{w}: node {b['raan']} expected {a['raan'] + i['dr']}", "raan")
        for f, t in (("incl", 1.01e-4), ("argp", 1.01e-4), ("ecc", 1.01e-7), ("n", 1.01e-8), ("ndot", 1.01e-8)):
            expect(abs(a[f] - b[f]) <= t, f"{w}: {f} {b[f]} expected {a[f]}", "frame")
        for f in ("nddot", "bstar"):
            expect(abs(a[f] - b[f]) <= 2e-4 * max(abs(a[f]), 1e-9 if f == "bstar" else 1e-9), f"{w}: {f} {b[f]} expected {a[f]}", "drag")


def deductive(V):
    con = {}
    if hasattr(utils, "wrap_degrees"):
        def body_w(v):
            x = v.real("angle")
            v.ensure("modulo 360", v.call(utils.wrap_degrees, x) == core.mod(x, 360))
        r = V.vc("wrap_degrees", body_w)
        if r is not None and r.proved:
            con["tatc.utils.wrap_degrees"] = lambda interp, a, k: core.mod(a[0], 360) if len(a) == 1 and isinstance(a[0], Num) else NotImplemented

    for kind, cls in KINDS.items():
        def body(v, kind=kind, cls=cls):
            o = sym_orbit(v, kind)
            dm, dr = v.real("dm"), v.real("dr")
            e = 0
            if kind == "molniya":
                e = v.call(cls.get_eccentricity, o)
                v.assume(e >= 0)
                v.assume(e < 1)
            elif "eccentricity" in o.fields:
                e = o.fields["eccentricity"]
            before = dict(o.fields)
            q = v.call(cls.get_derived_orbit, o, dm, dr)
            tgt = KINDS["circular"] if kind == "sso" else cls
            v.ensure("type of the derived orbit", q.cls is tgt)
            f = q.fields
            mean = spec_t2m(before["true_anomaly"], e, M.sin, M.rad, M.deg)
            adv = core.mod(mean + dm, 360)
            v.ensure("true anomaly of the advanced mean anomaly", congruent(f["true_anomaly"], spec_m2t(adv, e, M.sin, M.rad, M.deg)))
            if kind == "sso":
                raan = v.call(cls.get_right_ascension_ascending_node, o)
                inc = v.call(cls.get_inclination, o)
            else:
                raan, inc = before["right_ascension_ascending_node"], before["inclination"]
            v.ensure("node advanced", congruent(f["right_ascension_ascending_node"], raan + dr))
            v.ensure("inclination kept", equal(f["inclination"], inc))
            for k in ("altitude", "epoch", "eccentricity", "perigee_argument", "orbital_period"):
                if k in before:
                    v.ensure(k + " kept", equal(f[k], before[k]))
            for k in ("true_anomaly", "right_ascension_ascending_node"):
                v.ensure(k + " in one turn", z3.And(zb(f[k] >= 0), zb(f[k] < 360)))
            v.ensure("original unchanged", z3.And(*[equal(o.fields[k], before[k]) for k in before]))
        V.vc(f"{cls.__name__}.get_derived_orbit", body, contracts=con, trig_expand=False,
             replay=lambda i, kind=kind: check(dict(orbit=desc_of(kind, i), dm=float(i.get("dm", 10.0)), dr=float(i.get("dr", 20.0)))))

    for n in (1, 2, 3):
        def body(v, n=n):
            recs = []
            for k in range(n):
                vals = {}
                for f in ("bstar", "ndot", "nddot", "ecco", "argpo", "inclo", "mo", "no_kozai", "nodeo"):
                    vals[f] = v.real(f"{f}_{k}")
                vals["epoch"] = (stime(v, f"epoch_{k}").e - core.rv(dt_secs(orb.datetime(1949, 12, 31, tzinfo=orb.UTC)))) / 86400
                vals["epoch"] = Num(vals["epoch"])
                r = Satrec_(vals)
                recs.append(r)
            lines = [SLine(r, k) for r in recs for k in (1, 2)]
            o = SObj(TwoLineElements, dict(type="tle", tle=lines))
            keep = list(lines)
            dm, dr = v.real("dm"), v.real("dr")
            q = v.call(TwoLineElements.get_derived_orbit, o, dm, dr)
            out = q.fields["tle"]
            v.ensure("same number of lines", len(out) == 2 * n)
            v.ensure("original list unchanged", o.fields["tle"] is lines and all(a is b for a, b in zip(lines, keep)) and out is not lines)
            for k in range(n):
                a, b = recs[k], out[2 * k].rec
                v.ensure(f"set {k}: lines in place", out[2 * k].k == 1 and out[2 * k + 1].k == 2 and out[2 * k + 1].rec is b)
                for f in ("bstar", "ndot", "nddot", "ecco", "argpo", "inclo", "no_kozai", "epoch"):
                    v.ensure(f"set {k}: {f} kept", equal(b.vals[f], a.vals[f]))
                v.ensure(f"set {k}: mean anomaly advanced", congruent((b.mo - a.mo) * Num(core.IPI) * 180, dm))
                v.ensure(f"set {k}: node advanced", congruent((b.nodeo - a.nodeo) * Num(core.IPI) * 180, dr))
                for f in ("mo", "nodeo"):
                    v.ensure(f"set {k}: {f} in one turn", z3.And(zb(b.vals[f] >= 0), zb(b.vals[f] < 2 * M.pi)))
        V.vc(f"TwoLineElements.get_derived_orbit with {n} element set(s)", body)

    # any number of element sets: one arbitrary step of the loop over the sets
    def body_any(v):
        n = v.int("sets", ge=1).e
        I, R = z3.IntSort(), z3.RealSort()
        fs = {f: z3.Function(f + "_of", I, R) for f in ("bstar", "ndot", "nddot", "ecco", "argpo", "inclo", "mo", "no_kozai", "nodeo", "epoch")}
        rec_of = lambda i: Satrec_({f: Num(g(i)) for f, g in fs.items()})
        stores, ran = [], []

        class Lines(Sym):
            """the 2n lines of the element sets; writable copies log their stores."""

            def __init__(self, writable):
                self.writable = writable

            def copy(self):
                return Lines(True)

            def _len(self):
                return Num(2 * n)

            def _isinstance(self, c):
                return c is list

            def _subst(self, p):
                return self

            def _getitem(self, interp, ix):
                if self.writable and stores:
                    raise Unsupported("lines read back")
                if not isinstance(ix, (Num, int)):
                    raise Unsupported("index of a line")
                j = seq.zi(ix)
                core.oblig("contract: line index within the list", z3.And(j >= -2 * n, j < 2 * n))
                j = z3.If(j < 0, j + 2 * n, j)
                return SLine(rec_of(j / 2), 1 if core.decide(j % 2 == 0) else 2)

            def _setitem(self, interp, ix, x):
                if not isinstance(ix, (Num, int)) or not isinstance(x, SLine):
                    raise Unsupported("store of another shape")
                stores.append((self, seq.zi(ix), x))
        orig = Lines(False)
        o = SObj(TwoLineElements, dict(type="tle", tle=orig))
        dm, dr = v.real("dm"), v.real("dr")

        def rule(interp, st, it, env):
            if ran:
                raise Unsupported("a second loop")
            ran.append(it)
            j = z3.Int("j")
            v.ensure("contract: the loop runs once for each element set", it.n == n)
            v.assume(z3.And(j >= 0, j < n))
            interp.assign(st.target, it.get(j), env)
            interp.block(st.body, env)
            tgt = [x for x in stores]
            v.ensure("contract: a step stores two lines", z3.BoolVal(len(tgt) == 2))
            if len(tgt) != 2:
                raise Unsupported("stores of another shape")
            (l1, i1, x1), (l2, i2, x2) = tgt if tgt[0][2].k == 1 else tgt[::-1]
            v.ensure("contract: both in one copy of the lines", z3.BoolVal(l1 is l2 and l1 is not orig))
            v.ensure("contract: line numbers in place", z3.And(z3.BoolVal(x1.k == 1 and x2.k == 2 and x1.rec is x2.rec), i1 % 2 == 0, i2 == i1 + 1))
            k = i1 / 2
            v.ensure("contract: the set stored is the set of this step", k == j)
            a, b = rec_of(k), x1.rec
            for f in ("bstar", "ndot", "nddot", "ecco", "argpo", "inclo", "no_kozai", "epoch"):
                v.ensure(f"{f} kept", equal(b.vals[f], a.vals[f]))
            v.ensure("mean anomaly advanced", congruent((b.mo - a.mo) * Num(core.IPI) * 180, dm))
            v.ensure("node advanced", congruent((b.nodeo - a.nodeo) * Num(core.IPI) * 180, dr))
            for f in ("mo", "nodeo"):
                v.ensure(f"{f} in one turn", z3.And(zb(b.vals[f] >= 0), zb(b.vals[f] < 2 * M.pi)))
            return True
        LOOP_RULES["*"] = rule
        try:
            q = v.call(TwoLineElements.get_derived_orbit, o, dm, dr)
        finally:
            LOOP_RULES.pop("*", None)
        if not ran:
            raise Unsupported("no loop over the element sets")
        out = q.fields["tle"]
        v.ensure("contract: the derived orbit has the lines stored, as many as the original", z3.BoolVal(isinstance(out, Lines) and out is stores[0][0]))
        v.ensure("original list unchanged", z3.BoolVal(o.fields["tle"] is orig and not any(x[0] is orig for x in stores)))
    V.vc("TwoLineElements.get_derived_orbit with any number of element sets", body_any,
         replay=many_sets)


def many_sets(i):
    for dm, dr in ((float(i.get("dm", 10.0)) % 360, float(i.get("dr", 20.0)) % 360), (10.0, 20.0)):
        check_tle(dict(sets=gen_sets(random.Random(5), min(max(int(i.get("sets", 4)), 1), 80)), dm=dm, dr=dr))


def gen_delta(r):
    return r.choice([0.0, 360.0, -360.0, 180.0, -90.0, r.uniform(-360, 360), r.uniform(-360, 360), r.uniform(-4000, 4000), 720.0, 1e-12, -1e-12])


def gen_sets(r, n):
    ep = gen_epoch(r)
    t = epoch_of(ep)
    out = []
    for k in range(n):
        out.append(tle_lines(r, t, dict(cat="25544") if r.random() < 0.3 else None))
        t = t + timedelta(seconds=r.choice([3600, 86400, r.randrange(10**6)]))
    return out


def concrete(C):
    def gen(r):
        o = gen_orbit(r)
        dm, dr = gen_delta(r), gen_delta(r)
        if r.random() < 0.3:
            dm = -o["true_anomaly"]
        if r.random() < 0.3 and "raan" in o:
            dr = -o["raan"]
        return dict(orbit=o, dm=dm, dr=dr)
    C.cases("derived analytic orbits", gen, check, 900, "random valid orbits of every type, shifts -4000..4000 incl. wraps to 0/360", share=0.5)

    def gent(r):
        return dict(sets=gen_sets(r, r.choice([1, 1, 2, 3, 5])), dm=gen_delta(r), dr=gen_delta(r))
    C.cases("derived element sets", gent, check_tle, 400, "1..5 random valid element sets with drag terms", share=0.9)
