"""P06 element set validation."""
import math, random
from datetime import datetime, timedelta, timezone
import z3
from pydantic import ValidationError, AfterValidator
from vf.session import Fail, Skip, expect
from vf import core, seq, strs, tmodel
from vf.core import Num, zb, SymRaise, Unsupported, ctx
from vf.strs import CH, LEN, SStr
from vf.tmodel import STime, Satrec_, dt_secs
from vf.interp import MODELS
from vf.orb import tle_lines, checksum, gen_epoch, epoch_of, TwoLineElements, UTC
from tatc import utils
from sgp4.api import Satrec
from sgp4.conveniences import sat_epoch_datetime

ASSUMPTIONS = ["pydantic applies min_length and the declared AfterValidators in order and reports ValueError as ValidationError",
               "the epoch read by sgp4 from a line is a function of the line; an epoch day outside its year is rejected"]
SP, DG, SG = " ", "0123456789", "+-"
D = SP + DG
U = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
CAT = [D + "ABCDEFGHJKLMNPQRSTUVWXYZ"] + [D] * 4
_head = ["1", SP] + CAT + [U, SP] + [D] * 5 + [SP + U] * 3 + [SP] + [D] * 5 + ["."] + [D] * 8 + [SP]
_tail = [SP, SP + SG] + [D] * 5 + [SG, D, SP, SP + SG] + [D] * 5 + [SG, D, SP, D, SP] + [D] * 4 + [DG]
LAYOUT1 = [_head + [SP + "0" + SG, "."] + [D] * 8 + _tail, _head + [SP, SP + SG, "."] + [D] * 7 + _tail]
_ang = [D] * 3 + ["."] + [D] * 4 + [SP]
LAYOUT2 = [["2", SP] + CAT + [SP] + _ang + _ang + [D] * 7 + [SP] + _ang + _ang + [D] * 2 + ["."] + [D] * 13 + [DG]]
assert all(len(x) == 69 for x in LAYOUT1 + LAYOUT2)


def layout_ok(line, k):
    return len(line) == 69 and any(all(c in s for c, s in zip(line, L)) for L in (LAYOUT1 if k == 0 else LAYOUT2))


def line_ok(line, k):
    return isinstance(line, str) and layout_ok(line, k) and int(line[68]) == checksum(line)


def epoch_key(l1):
    t = l1[18:32]
    if " " in t.strip() or not t[:2].strip().isdigit() or t[0] == " ":
        return None
    yy, dd = int(t[:2]), t[2:].strip()
    try:
        dd = float(dd)
    except ValueError:
        return None
    y = 2000 + yy if yy < 57 else 1900 + yy
    last = 367 if (y % 4 == 0) else 366
    if not 1 <= dd < last:
        return None
    return datetime(y, 1, 1, tzinfo=UTC) + timedelta(days=dd - 1)


def check(i):
    v = i["lines"]
    try:
        o = TwoLineElements(tle=v)
        got = True
    except ValidationError:
        got = False
    except Exception as e:
        raise Fail(f"{v!r}: fails with {type(e).__name__}: {e} instead of a validation error", "other-error")
    ok = isinstance(v, list) and len(v) >= 2 and len(v) % 2 == 0 and all(line_ok(x, k % 2) for k, x in enumerate(v))
    if not ok:
        expect(not got, f"{v!r}: accepted although malformed", "accepted")
        return
    eps = [epoch_key(v[k]) for k in range(0, len(v), 2)]
    if any(e is None for e in eps):
        return  # epoch columns hold no calendar date: nothing claimed about acceptance
    gap = [(b - a).total_seconds() for a, b in zip(eps, eps[1:])]
    if any(-1e-3 < g < 0 for g in gap) or any(0 < g < 1e-4 for g in gap):
        return
    chrono = all(g >= 0 for g in gap)
    if chrono:
        expect(got, f"{v!r}: rejected although well-formed and in time order", "rejected")
        expect(list(o.tle) == list(v), f"{v!r}: stored lines differ", "stored")
    else:
        expect(not got, f"{v!r}: accepted although epochs go backwards", "order")


# ---------------------------------------------------------------- symbolic
def cls(c, s):
    codes = sorted({ord(x) for x in s})
    out, k = [], 0
    while k < len(codes):
        j = k
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        out.append(c == codes[k] if j == k else z3.And(c >= codes[k], c <= codes[j]))
        k = j + 1
    return z3.Or(*out)


def sym_ok(j, k):
    """line number j is a correct line k (0 or 1) of an element set."""
    L = LAYOUT1 if k == 0 else LAYOUT2
    ch = [CH(j, z3.IntVal(c)) for c in range(69)]
    lay = z3.Or(*[z3.And(*[cls(ch[c], s) for c, s in enumerate(l)]) for l in L])
    tot = z3.Sum(*[z3.If(strs.digit(x), z3.If(x <= 127, x - 48, strs.DIGVAL(x)), z3.If(x == 45, 1, 0)) for x in ch[:68]])
    return z3.And(LEN(j) == 69, lay, ch[68] - 48 == tot % 10)


EPOCH = z3.Function("epoch_of_lines", z3.IntSort(), z3.IntSort(), z3.RealSort())


def m_twoline(interp, args, kw):
    a, b = args[:2]
    if isinstance(a, SStr) and isinstance(b, SStr):
        ctx.trust("sgp4 twoline2rv/sat_epoch_datetime: the epoch is a function of the two lines")
        return Satrec_(dict(epoch=Num((EPOCH(a.j, b.j) - core.rv(dt_secs(datetime(1949, 12, 31, tzinfo=UTC)))) / 86400)))
    return _old(interp, args, kw)


_old = MODELS[Satrec.twoline2rv]


def deductive(V):
    def guarded(v, thunk):
        """'ok' or the exception name."""
        try:
            thunk()
            return "ok"
        except SymRaise as r:
            return r.cls if isinstance(r.cls, str) else r.cls.__name__

    def body_even(v):
        n = v.int("lines", ge=0)
        l = strs.lines(n.e)
        r = guarded(v, lambda: v.call(utils.is_even_length_list, l))
        v.ensure("accepts or reports a ValueError", r in ("ok", "ValueError"))
        v.ensure("accepts exactly even lengths", (n.e % 2 == 0) if r == "ok" else (n.e % 2 != 0))
    V.vc("is_even_length_list", body_even)

    for nsets in ((1,) if V.tier == 'quick' else (1, 2)):
        def body_valid(v, nsets=nsets):
            l = [SStr(z3.IntVal(k)) for k in range(2 * nsets)]
            name_chars(v, 2 * nsets)
            r = guarded(v, lambda: v.call(utils.is_valid_tle, l))
            v.ensure("accepts or reports a ValueError", r in ("ok", "ValueError"))
            ok = z3.And(*[sym_ok(z3.IntVal(k), k % 2) for k in range(2 * nsets)])
            v.ensure("accepts exactly correct lines", ok if r == "ok" else z3.Not(ok))
        V.vc(f"is_valid_tle, {nsets} element set(s)", body_valid, replay=replay_lines(2 * nsets))

    def body_all(v):
        n = v.int("lines", ge=0)
        v.assume(n.e % 2 == 0)
        l = strs.lines(n.e)
        r = guarded(v, lambda: v.call(utils.is_valid_tle, l))
        v.ensure("accepts or reports a ValueError", r in ("ok", "ValueError"))
        s = z3.Int("s")
        if r == "ok":
            v.assume(z3.And(s >= 0, s < n.e / 2))
            inst = [z3.substitute_vars(f.body(), s) for f in ctx.formulas() if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1]
            inst += [z3.substitute_vars(f.arg(0).body(), s) if False else z3.Not(z3.substitute_vars(f.arg(0).body(), s)) for f in ctx.formulas()
                     if z3.is_not(f) and z3.is_quantifier(f.arg(0)) and f.arg(0).num_vars() == 1 and f.arg(0).is_exists()]
            for f in inst:
                v.assume(f)  # instances of the path condition
            v.ensure("accepted: line 1 of every set is correct", sym_ok(2 * s, 0))
            v.ensure("accepted: line 2 of every set is correct", sym_ok(2 * s + 1, 1))
        else:
            w = z3.Int("w")
            found = False
            for f in list(ctx.formulas()):
                if z3.is_quantifier(f) and f.is_exists() and f.num_vars() == 1:
                    v.assume(z3.substitute_vars(f.body(), w))  # skolem witness of the path condition
                    found = True
            if not found:
                raise Unsupported("no witness on the rejecting path")
            v.ensure("rejected: some set is not correct", z3.Not(z3.And(w >= 0, w < n.e / 2, sym_ok(2 * w, 0), sym_ok(2 * w + 1, 1))))
    V.vc("is_valid_tle, any number of element sets", body_all)

    def body_chrono(v):
        n = v.int("lines", ge=2)
        v.assume(n.e % 2 == 0)
        l = strs.lines(n.e)
        r = guarded(v, lambda: v.call(utils.is_chronological_tle, l))
        k = z3.Int("k")
        order = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k + 1 < n.e / 2), EPOCH(2 * k, 2 * k + 1) <= EPOCH(2 * (k + 1), 2 * (k + 1) + 1)))
        v.ensure("accepts or reports a ValueError", r in ("ok", "ValueError"))
        v.ensure("accepts exactly when epochs do not go backwards", order if r == "ok" else z3.Not(order))
    MODELS[Satrec.twoline2rv] = m_twoline
    try:
        V.vc("is_chronological_tle", body_chrono)

        for n in ((2, 3, 5) if V.tier == 'quick' else (2, 3, 4, 5)):
            def body_field(v, n=n):
                fi = TwoLineElements.model_fields["tle"]
                l = [SStr(z3.IntVal(k)) for k in range(n)]
                name_chars(v, n)
                ml = [m.min_length for m in fi.metadata if hasattr(m, "min_length")]
                v.ensure("at least one element set is required", ml == [2])
                r = "ok"
                for m in fi.metadata:
                    if isinstance(m, AfterValidator):
                        r = guarded(v, lambda: v.call(m.func, l))
                        if r != "ok":
                            break
                v.ensure("rejection is a ValueError", r in ("ok", "ValueError"))
                if n % 2:
                    v.ensure("an odd number of lines is rejected", r != "ok")
                    return
                ok = [sym_ok(z3.IntVal(k), k % 2) for k in range(n)]
                ok += [EPOCH(z3.IntVal(k), z3.IntVal(k + 1)) <= EPOCH(z3.IntVal(k + 2), z3.IntVal(k + 3)) for k in range(0, n - 2, 2)]
                v.ensure("accepted exactly when every line is correct and epochs are in order", z3.And(*ok) if r == "ok" else z3.Not(z3.And(*ok)))
            V.vc(f"declared validation of a {n}-line orbit", body_field, replay=replay_lines(n))
    finally:
        MODELS[Satrec.twoline2rv] = _old


def replay_lines(n):
    def rep(i):
        lines = []
        for j in range(n):
            L = i.get(f"len_{j}", 69)
            if not 0 <= L <= 200:
                raise Skip()
            cs = [i.get(f"c_{j}_{k}", 32) for k in range(min(L, 69))] + [32] * max(0, L - 69)
            if any(not (0 <= c < 0xD800) for c in cs):
                raise Skip()
            lines.append("".join(map(chr, cs)))
        check(dict(lines=lines))
    return rep


def name_chars(v, n):
    for j in range(n):
        v.inputs[f"len_{j}"] = LEN(z3.IntVal(j))
        for k in range(69):
            v.inputs[f"c_{j}_{k}"] = CH(z3.IntVal(j), z3.IntVal(k))


def concrete(C):
    def gen(r):
        n = r.choice([1, 1, 2, 2, 3])
        t = epoch_of(gen_epoch(r))
        lines = []
        for k in range(n):
            lines += tle_lines(r, t, dict(cat=r.choice(["25544", "    5", "A0001", "Z9999"])) if r.random() < 0.5 else None, rich=r.random() < 0.8)
            t += timedelta(seconds=r.choice([0, 1, 3600, 86400 * 40, -1, -3600, -86400 * 400, r.randrange(10**6)]) if r.random() < 0.5 else r.randrange(10**7))
            if not 1958 < t.year < 2056:
                t = datetime(2020, 1, 1, tzinfo=UTC)
        m = r.choice(["none", "none", "char", "char", "char2", "digit", "swap", "drop", "dup", "short", "long", "shift", "minus", "odd", "empty", "type", "pair", "blank"])
        k = r.randrange(len(lines))
        l = lines[k]
        fix = lambda x: x[:68] + str(checksum(x)) if len(x) >= 68 else x
        if m == "char":
            c = r.randrange(69)
            lines[k] = l[:c] + r.choice("0123456789 -+.ABXIOZaé²\n") + l[c + 1:]
        elif m == "char2":  # with corrected checksum
            c = r.randrange(68)
            lines[k] = fix(l[:c] + r.choice("0123456789 -+.ABXIOZa") + l[c + 1:])
        elif m == "digit":
            c = r.choice([j for j in range(69) if l[j].isdigit()])
            lines[k] = l[:c] + str((int(l[c]) + r.randrange(1, 10)) % 10) + l[c + 1:]
        elif m == "minus":
            c = r.choice([33, 44, 53]) if k % 2 == 0 else r.randrange(69)
            lines[k] = l[:c] + ("-" if l[c] != "-" else " ") + l[c + 1:]
        elif m == "swap":
            j = k ^ 1
            lines[k], lines[j] = lines[j], lines[k]
        elif m == "drop":
            del lines[k]
        elif m == "dup":
            lines.insert(k, l)
        elif m == "short":
            lines[k] = l[:r.randrange(0, 69)]
        elif m == "long":
            lines[k] = l + r.choice([" ", "0", "\n", "00"])
        elif m == "shift":
            lines[k] = " " + l[:68]
        elif m == "odd":
            lines = lines[:-1]
        elif m == "empty":
            lines = r.choice([[], [""], ["", ""], [l, ""], ["", l]])
        elif m == "type":
            lines = r.choice([None, "x", 5, [None, None], [1, 2], [l, None], {"a": 1}, [[l], [l]], l])
        elif m == "pair":
            lines = lines + lines[:2]
        elif m == "blank":
            lines[k] = l[:68] + " "
        return dict(lines=lines)
    C.cases("acceptance", gen, check, 4000, "valid sets (1-3) and mutations: characters, checksums, lengths, order, odd counts, types", share=0.9)
