"""Assumed contracts (models) of builtins, math and numpy, over symbolic values."""
import builtins, math, operator, copy as _copy, itertools, functools
from fractions import Fraction
import numpy as np
import z3
from . import core
from .core import (Sym, Num, SBool, Case, Unsupported, PathEnd, SymRaise, ctx, zb, zn, zr, mkb, mkn, decide, ite, subst,
                   assume, is_num, equal, fn, PI, fresh)
from .interp import (MODELS, METHOD_MODELS, CLASS_MODELS, model, is_sym, exact, native, SObj, lambda_model, Closure,
                     BoundMethod, _arr_bin)
from . import seq
from .seq import Seq, FSeq, of_list, zi


def anysym(args, kw=()):
    return is_sym(list(args)) or (kw and is_sym(kw))


def vec_apply(f, x):
    """Apply scalar f elementwise (scalar, object array, Seq)."""
    if isinstance(x, Case):
        x = x.resolve()
    if isinstance(x, FSeq):
        return x.map(f, True)
    if isinstance(x, Seq):
        return Seq(x.n, lambda j: f(x.get(j)), True)
    if hasattr(x, "_vmap"):
        return x._vmap(f)
    if isinstance(x, (list, tuple)):
        x = np.array(x, dtype=object)
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return f(exact(x.item()))
        out = np.empty(x.shape, dtype=object)
        for ix in np.ndindex(x.shape):
            out[ix] = f(exact(x[ix]))
        return out
    return f(exact(x))


def _exactable(x):
    """scalar whose exact treatment matters (symbolic or rational)."""
    return isinstance(x, (Num, SBool, Case, Seq)) or (isinstance(x, np.ndarray) and x.dtype == object) or hasattr(x, "_vmap")


def _reg1(name, *fs):
    for f in fs:
        @model(f)
        def m(interp, args, kw, name=name):
            if len(args) != 1 or kw:
                return NotImplemented if not anysym(args, kw) else _uns(name)
            x = args[0]
            if isinstance(x, (Fraction, int)) or _exactable(x) or is_sym(x):
                return vec_apply(lambda v: fn(name, v), x)
            return NotImplemented


def _uns(n):
    raise Unsupported(f"{n} with these symbolic arguments")


for _n, _fs in dict(sin=(np.sin, math.sin), cos=(np.cos, math.cos), tan=(np.tan, math.tan),
                    asin=(np.arcsin, math.asin), acos=(np.arccos, math.acos), atan=(np.arctan, math.atan),
                    sqrt=(np.sqrt, math.sqrt), cbrt=(np.cbrt,), exp=(np.exp, math.exp), log=(np.log, math.log)).items():
    _reg1(_n, *_fs)


@model(np.arctan2, math.atan2)
def _(interp, args, kw):
    if not anysym(args):
        return NotImplemented
    return bin_vec(lambda a, b: fn("atan2", a, b), args[0], args[1])


def bin_vec(f, a, b):
    if isinstance(a, Seq) or isinstance(b, Seq):
        if isinstance(a, Seq):
            return a._vop(b, f)
        return b._vop(a, lambda x, y: f(y, x))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return _arr_bin(f, a, b)
    return f(exact(a), exact(b))


@model(np.radians, np.deg2rad, math.radians)
def _(interp, args, kw):
    x = args[0]
    if isinstance(x, (int, Fraction)) or is_sym(x):
        return vec_apply(lambda v: v * Num(PI) * Fraction(1, 180), x)
    return NotImplemented


@model(np.degrees, np.rad2deg, math.degrees)
def _(interp, args, kw):
    x = args[0]
    if isinstance(x, (int, Fraction)) or is_sym(x):
        return vec_apply(lambda v: v * Num(core.IPI) * 180, x)
    return NotImplemented


def _bin(f):
    def m(interp, args, kw):
        if not anysym(args):
            if all(isinstance(a, (int, Fraction)) for a in args):
                return interp.binop(f, *args)
            return NotImplemented
        return interp.binop(f, args[0], args[1])
    return m


import ast as _ast
for _f, _o in ((np.mod, _ast.Mod), (np.remainder, _ast.Mod), (np.multiply, _ast.Mult), (np.divide, _ast.Div),
               (np.true_divide, _ast.Div), (np.add, _ast.Add), (np.subtract, _ast.Sub), (np.power, _ast.Pow),
               (np.floor_divide, _ast.FloorDiv), (math.pow, _ast.Pow), (operator.add, _ast.Add), (operator.sub, _ast.Sub),
               (operator.mul, _ast.Mult), (operator.truediv, _ast.Div), (builtins.pow, _ast.Pow)):
    MODELS[_f] = _bin(_o)


@model(np.fmod, math.fmod)
def _(interp, args, kw):
    if not anysym(args):
        return NotImplemented
    def f(a, b):
        q = interp.binop(_ast.Div, a, b)
        t = zr(q)
        return a - b * Num(z3.ToReal(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))))
    return bin_vec(f, *args)


@model(np.sign)
def _(interp, args, kw):
    if not anysym(args):
        return NotImplemented
    def sg(v):
        if type(v).__name__ == "SDelta":
            raise Unsupported("np.sign of a duration")
        return ite(zb(v > 0), 1, ite(zb(v < 0), -1, 0)) if isinstance(v, Sym) else (v > 0) - (v < 0)
    return vec_apply(sg, args[0])


@model(builtins.abs, np.abs, np.absolute, np.fabs, math.fabs)
def _(interp, args, kw):
    if not anysym(args):
        return NotImplemented
    return vec_apply(abs, args[0])


def floor_(v):
    if isinstance(v, Num):
        return Num(core.floor_z(v.e))
    return math.floor(v)


def ceil_(v):
    if isinstance(v, Num):
        return v if v.is_int else Num(-z3.ToInt(-v.e))
    return math.ceil(v)


@model(np.floor, math.floor)
def _(interp, args, kw):
    return vec_apply(floor_, args[0]) if anysym(args) or isinstance(args[0], Fraction) else NotImplemented


@model(np.ceil, math.ceil)
def _(interp, args, kw):
    return vec_apply(ceil_, args[0]) if anysym(args) or isinstance(args[0], Fraction) else NotImplemented


def round_(v, nd=None):
    """round half to even."""
    if isinstance(nd, int) and nd:
        k = Fraction(10) ** nd
        r = round_(v * k if isinstance(v, Sym) else Fraction(v) * k)
        return r * (1 / k) if isinstance(r, Sym) else Fraction(r) / k
    if isinstance(v, Num):
        if v.is_int:
            return v
        f = z3.ToInt(v.e)
        d = v.e - z3.ToReal(f)
        h = z3.RealVal("1/2")
        return Num(z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1))))
    return round(v)


@model(builtins.round, np.round, np.rint, np.around)
def _(interp, args, kw):
    if anysym(args) or isinstance(args[0], Fraction):
        nd = args[1] if len(args) > 1 else kw.get("decimals", kw.get("ndigits"))
        return vec_apply(lambda v: round_(v, nd), args[0])
    return NotImplemented


@model(np.trunc, math.trunc)
def _(interp, args, kw):
    return vec_apply(trunc_, args[0]) if anysym(args) or isinstance(args[0], Fraction) else NotImplemented


def trunc_(v):
    if isinstance(v, Num):
        if v.is_int:
            return v
        return Num(z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e)))
    return int(v)


@model(builtins.int)
def _(interp, args, kw):
    if not args:
        return 0
    x = args[0]
    if isinstance(x, Case):
        x = x.resolve()
    if isinstance(x, Num):
        return trunc_(x)
    if isinstance(x, SBool):
        return Num(zn(x))
    if hasattr(x, "_int"):
        return x._int()
    if isinstance(x, Sym):
        _uns("int")
    return NotImplemented


@model(builtins.float, np.float64)
def _(interp, args, kw):
    x = args[0] if args else 0
    if isinstance(x, Case):
        x = x.resolve()
    if isinstance(x, Num):
        return Num(zr(x))
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
        return Fraction(x)
    if hasattr(x, "_float"):
        return x._float()
    if isinstance(x, Sym):
        _uns("float")
    return NotImplemented


@model(builtins.bool)
def _(interp, args, kw):
    x = args[0]
    if isinstance(x, SBool):
        return x
    if isinstance(x, Sym):
        return interp.truth(x)
    return NotImplemented


@model(builtins.str)
def _(interp, args, kw):
    x = args[0] if args else ""
    if hasattr(x, "_str"):
        return x._str()
    if is_sym(x):
        return SText(x)
    return NotImplemented


class SText(Sym):
    """str() of a symbolic value (opaque)."""

    def __init__(self, *parts):
        self.parts = list(parts)

    def __add__(self, o):
        return SText(*(self.parts + (o.parts if isinstance(o, SText) else [o])))

    def __radd__(self, o):
        return SText(o, *self.parts)

    def _subst(self, p):
        return SText(*[subst(x, p) for x in self.parts])

    def _equal(self, o):
        if not isinstance(o, SText) or len(o.parts) != len(self.parts):
            raise Unsupported("text comparison")
        return z3.And(*[equal(a, b) for a, b in zip(self.parts, o.parts)])

    def _len(self):
        if len(self.parts) == 1 and isinstance(self.parts[0], Num) and self.parts[0].is_int:
            return Num(DIGITS(self.parts[0].e))
        raise Unsupported("length of text")

    def zfill(self, w):
        if len(self.parts) == 1 and isinstance(self.parts[0], Num) and self.parts[0].is_int:
            return SText(SPad(self.parts[0], w))
        raise Unsupported("zfill")

    def rjust(self, w, c=" "):
        if c == "0":
            return self.zfill(w)
        raise Unsupported("rjust")


DIGITS = z3.Function("decimal_digits", z3.IntSort(), z3.IntSort())


class SPad(Sym):
    """a whole number as decimal text, zero padded to a width."""

    def __init__(self, x, w):
        self.x, self.w = x, w

    def _subst(self, p):
        return SPad(subst(self.x, p), subst(self.w, p))

    def _equal(self, o):
        if not isinstance(o, SPad):
            raise Unsupported("text comparison")
        return z3.And(equal(self.x, o.x), equal(self.w, o.w))


@model(builtins.isinstance)
def _(interp, args, kw):
    x, t = args
    if isinstance(x, Case):
        x = x.resolve()
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, SObj):
        return any(isinstance(c, type) and issubclass(x.cls, c) for c in ts)
    if isinstance(x, Num):
        return any(c in ((int, float, np.integer) if x.is_int else (float, np.floating, np.float64)) or c is int and x.is_int for c in ts if c is not float or not x.is_int)
    if isinstance(x, SBool):
        return any(c in (bool, np.bool_, int) for c in ts)
    if hasattr(x, "_isinstance"):
        return any(x._isinstance(c) for c in ts)
    if isinstance(x, Fraction):
        return float in ts or np.floating in ts
    if isinstance(x, Seq):
        return any((c in (np.ndarray,)) if x.vec else (c in (list,)) for c in ts)
    if isinstance(x, Sym):
        _uns(f"isinstance of {type(x).__name__}")
    return NotImplemented


@model(builtins.hasattr)
def _(interp, args, kw):
    o, n = args
    if isinstance(o, SObj):
        return n in o.fields or hasattr(o.cls, n)
    if isinstance(o, Sym):
        return hasattr(o, n)
    return NotImplemented


@model(builtins.getattr)
def _(interp, args, kw):
    try:
        return interp.getattr(args[0], args[1])
    except SymRaise as r:
        if len(args) > 2 and r.cls is AttributeError:
            return args[2]
        raise


@model(builtins.type)
def _(interp, args, kw):
    if len(args) == 1:
        o = args[0]
        if isinstance(o, SObj):
            return o.cls
        if isinstance(o, Fraction):
            return float
        if isinstance(o, Sym):
            _uns("type")
    return NotImplemented


@model(np.size)
def _(interp, args, kw):
    x = args[0].resolve() if isinstance(args[0], Case) else args[0]
    if hasattr(x, "_size"):
        return x._size(*args[1:], **kw)
    if len(args) > 1 or kw:
        if is_sym(x):
            raise Unsupported("size along an axis")
        return NotImplemented
    return MODELS[builtins.len](interp, [x], {})


@model(builtins.len)
def _(interp, args, kw):
    x = args[0]
    if isinstance(x, Case):
        x = x.resolve()
    if isinstance(x, Seq):
        return x.length()
    if hasattr(x, "_len"):
        return x._len()
    if isinstance(x, (Num, SBool)):
        return 1
    if isinstance(x, (list, tuple, dict, str)):
        return len(x)
    return NotImplemented


@model(builtins.range, np.arange)
def _(interp, args, kw):
    if not anysym(args, kw):
        return NotImplemented
    a = list(args)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    lo, hi = zi(lo), zi(hi)
    if isinstance(st, Num):
        c = core.const_of(z3.simplify(st.e))
        if c is None:
            _uns("range step")
        st = c
    if st == 1:
        return Seq(z3.simplify(core.choose(hi >= lo, hi - lo, z3.IntVal(0))), lambda j: mkn(z3.simplify(lo + j)))
    if isinstance(st, int) and st > 0:
        return Seq(z3.simplify(z3.If(hi > lo, (hi - lo + st - 1) / st, z3.IntVal(0))), lambda j: mkn(z3.simplify(lo + st * j)))
    if st == -1:
        return Seq(z3.simplify(z3.If(lo > hi, lo - hi, z3.IntVal(0))), lambda j: mkn(z3.simplify(lo - j)))
    _uns("range step")


def symseq(interp, x):
    it = seq.iterable(interp, x)
    return it


@model(builtins.enumerate)
def _(interp, args, kw):
    it = seq.iterable(interp, args[0])
    st = args[1] if len(args) > 1 else kw.get("start", 0)
    if isinstance(it, FSeq):
        return Seq(it.n, lambda j: (mkn(z3.simplify(j + zi(st))), it.get(j)))
    if isinstance(it, Seq):
        return Seq(it.n, lambda j: (mkn(z3.simplify(j + zi(st))), it.get(j)))
    return [(i + st, x) for i, x in enumerate(it)]


@model(builtins.zip)
def _(interp, args, kw):
    its = [seq.iterable(interp, a) for a in args]
    if not any(isinstance(i, Seq) for i in its):
        return list(zip(*its))
    its = [i if isinstance(i, Seq) else of_list(list(i)) for i in its]
    n = its[0].n
    for i in its[1:]:
        if not z3.eq(z3.simplify(n), z3.simplify(i.n)):
            n = z3.If(n < i.n, n, i.n)
    return Seq(z3.simplify(n), lambda j: tuple(i.get(j) for i in its))


@model(builtins.map)
def _(interp, args, kw):
    if len(args) != 2:
        its = [seq.iterable(interp, a) for a in args[1:]]
        if any(isinstance(i, Seq) for i in its):
            _uns("map")
        return [interp.call(args[0], list(t)) for t in zip(*its)]
    it = seq.iterable(interp, args[1])
    if isinstance(it, Seq):
        n, i, cond, val, filt = seq.generic_map(interp, it, lambda x: interp.call(args[0], [x]))
        if isinstance(it, FSeq):
            r = seq.FSeq2(it, False)
            r.value = val
            return r
        return Seq(it.n, val)
    return [interp.call(args[0], [x]) for x in it]


@model(builtins.list, builtins.tuple, builtins.iter)
def _(interp, args, kw):
    if not args:
        return ctx.born([])
    x = args[0]
    if isinstance(x, Case):
        x = x.resolve()
    if isinstance(x, FSeq):
        return seq.FSeq2(x, False)
    if isinstance(x, (seq.FlatSeq, seq.CatSeq)):
        return x
    if isinstance(x, Seq):
        return Seq(x.n, x.get, False)
    it = seq.iterable(interp, x)
    if isinstance(it, Seq):
        return it
    return ctx.born(list(it))


@model(builtins.tuple)
def _(interp, args, kw):
    if not args:
        return ()
    it = seq.iterable(interp, args[0])
    if isinstance(it, Seq):
        return it
    return tuple(it)


@model(builtins.reversed)
def _(interp, args, kw):
    it = seq.iterable(interp, args[0])
    if isinstance(it, Seq):
        return Seq(it.n, lambda j: it.get(it.n - 1 - j))
    return list(reversed(list(it)))


def pick(interp, xs, better):
    v = xs[0]
    for x in xs[1:]:
        c = better(x, v)
        if is_sym(c):
            z = zb(c)
            if not core.feasible(z):
                continue
            if not core.feasible(z3.Not(z)):
                v = x
                continue
            v = ite(z, x, v)
        else:
            v = x if c else v
    return v


def _best(interp, it, key, mx):
    """the first element of a sequence with the extreme key."""
    from .tables import fresh_fn
    if not decide(it.n > 0):
        raise SymRaise(ValueError("empty"))
    n, _, _, val, filtered = seq.generic_map(interp, Seq(it.n, it.get), lambda x: interp.call(key, [x]))
    if filtered:
        _uns("min/max key")
    j, k = fresh_fn("best", z3.IntSort())(), seq.gvar("k")
    a, b = val(k), val(j)
    core.assume(z3.And(j >= 0, j < n))
    core.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), zb(a <= b) if mx else zb(a >= b))))
    core.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < j), zb(a < b) if mx else zb(a > b))))
    return it.get(j)


def _minmax(mx):
    def m(interp, args, kw):
        xs = list(args)
        key = kw.get("key")
        if len(xs) == 1:
            it = seq.iterable(interp, xs[0])
            if isinstance(it, Seq):
                if key is not None:
                    if kw.keys() - {"key"}:
                        _uns("min/max options")
                    return _best(interp, it, key, mx)
                if "default" in kw and not decide(it.n > 0):
                    return kw["default"]
                return seq.extremum(it, mx)
            xs = list(it)
            if not xs:
                if "default" in kw:
                    return kw["default"]
                raise SymRaise(ValueError("empty"))
        if not is_sym(xs) and not key:
            return exact((max if mx else min)(xs))
        k = (lambda x: interp.call(key, [x])) if key else (lambda x: x)
        if mx:
            return pick(interp, xs, lambda x, v: interp.compare(_ast.Gt, k(x), k(v)))
        return pick(interp, xs, lambda x, v: interp.compare(_ast.Lt, k(x), k(v)))
    return m


MODELS[builtins.min] = _minmax(False)
MODELS[builtins.max] = _minmax(True)


@model(np.minimum, np.fmin)
def _(interp, args, kw):
    if not anysym(args):
        return NotImplemented
    return bin_vec(lambda a, b: ite(zb(a <= b), a, b) if is_sym(a) or is_sym(b) else min(a, b), *args[:2])


@model(np.maximum, np.fmax)
def _(interp, args, kw):
    if not anysym(args):
        return NotImplemented
    return bin_vec(lambda a, b: ite(zb(a >= b), a, b) if is_sym(a) or is_sym(b) else max(a, b), *args[:2])


@model(np.clip)
def _(interp, args, kw):
    if not anysym(args, kw):
        return NotImplemented
    a = list(args)
    lo = a[1] if len(a) > 1 else kw.get("a_min", kw.get("min"))
    hi = a[2] if len(a) > 2 else kw.get("a_max", kw.get("max"))
    def f(v):
        if lo is not None:
            v = MODELS[np.maximum](interp, [v, lo], {}) if anysym([v, lo]) else max(v, lo)
        if hi is not None:
            v = MODELS[np.minimum](interp, [v, hi], {}) if anysym([v, hi]) else min(v, hi)
        return v
    return vec_apply(f, a[0])


@model(np.min, np.amin)
def _(interp, args, kw):
    return MODELS[builtins.min](interp, [args[0]], {}) if anysym(args) and not kw else NotImplemented


@model(np.max, np.amax)
def _(interp, args, kw):
    return MODELS[builtins.max](interp, [args[0]], {}) if anysym(args) and not kw else NotImplemented


@model(builtins.sum, np.sum)
def _(interp, args, kw):
    if not anysym(args):
        return NotImplemented
    it = seq.iterable(interp, args[0])
    if isinstance(it, Seq):
        return seq.sum_(it)
    t = args[1] if len(args) > 1 and not kw else 0
    for x in it:
        t = interp.binop(_ast.Add, t, x)
    return t


@model(builtins.any, np.any)
def _(interp, args, kw):
    if not anysym(args):
        return NotImplemented
    it = seq.iterable(interp, args[0]) if not isinstance(args[0], (SBool, Num)) else [args[0]]
    if isinstance(it, Seq):
        return seq.any_(it)
    zs = [zb(x) if isinstance(x, (SBool, Num, bool, np.bool_)) else z3.BoolVal(interp.truth(x)) for x in it]
    return mkb(z3.simplify(z3.Or(*zs))) if zs else False


@model(builtins.all, np.all)
def _(interp, args, kw):
    if not anysym(args):
        return NotImplemented
    it = seq.iterable(interp, args[0]) if not isinstance(args[0], (SBool, Num)) else [args[0]]
    if isinstance(it, Seq):
        return seq.all_(it)
    zs = [zb(x) if isinstance(x, (SBool, Num, bool, np.bool_)) else z3.BoolVal(interp.truth(x)) for x in it]
    return mkb(z3.simplify(z3.And(*zs))) if zs else True


@model(np.logical_and)
def _(interp, args, kw):
    return bin_vec(lambda a, b: mkb(z3.And(zb(a), zb(b))), *args[:2]) if anysym(args) else NotImplemented


@model(np.logical_or)
def _(interp, args, kw):
    return bin_vec(lambda a, b: mkb(z3.Or(zb(a), zb(b))), *args[:2]) if anysym(args) else NotImplemented


@model(np.logical_not)
def _(interp, args, kw):
    return vec_apply(lambda a: mkb(z3.Not(zb(a))), args[0]) if anysym(args) else NotImplemented


@model(np.where)
def _(interp, args, kw):
    if not anysym(args):
        return NotImplemented
    if len(args) == 3:
        c, a, b = args
        if isinstance(c, (SBool, bool)):
            if not any(isinstance(t, (Seq, np.ndarray)) for t in (a, b)):
                return ite(zb(c), a, b)
        if isinstance(c, Seq):
            g = lambda v, j: v.get(j) if isinstance(v, Seq) else (of_list(list(v)).get(j) if isinstance(v, (list, np.ndarray)) else v)
            return Seq(c.n, lambda j: ite(zb(c.get(j)), g(a, j), g(b, j)), True)
        if isinstance(c, np.ndarray):
            A, B = np.broadcast_to(np.asarray(a, dtype=object), c.shape), np.broadcast_to(np.asarray(b, dtype=object), c.shape)
            out = np.empty(c.shape, dtype=object)
            for ix in np.ndindex(c.shape):
                out[ix] = ite(zb(c[ix]), A[ix], B[ix])
            return out
        _uns("where")
    c = args[0]
    if isinstance(c, Seq):
        return (FSeq(c.n, lambda i: c.get(i), lambda i: mkn(i), True),)
    _uns("where")


@model(np.array, np.asarray, np.asanyarray)
def _(interp, args, kw):
    x = args[0]
    if isinstance(x, Case):
        x = x.resolve()
    if isinstance(x, Seq):
        v = x.as_vec()
        return v
    if hasattr(x, "_vmap"):
        return x
    if isinstance(x, (Num, SBool)):
        return x
    if is_sym(x) or _has_frac(x):
        if isinstance(x, np.ndarray):
            return x.copy()
        r = np.empty(_shape(x), dtype=object)
        for ix in np.ndindex(r.shape):
            v = x
            for k in ix:
                v = v[k]
            r[ix] = exact(v)
        return r
    return NotImplemented


def _has_frac(x):
    if isinstance(x, Fraction):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_frac(y) for y in x)
    return False


def _shape(x):
    s = ()
    while isinstance(x, (list, tuple, np.ndarray)):
        s += (len(x),)
        if len(x) == 0:
            break
        x = x[0]
    return s


@model(np.dot, np.inner, np.vdot)
def _(interp, args, kw):
    if not anysym(args):
        return NotImplemented
    a, b = (np.asarray(x, dtype=object) if isinstance(x, (list, tuple)) else x for x in args[:2])
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.ndim == 1 and b.ndim == 1:
        t = 0
        for x, y in zip(a, b):
            t = t + exact(x) * exact(y)
        return t
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return np.dot(a, b)
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
        return interp.binop(_ast.Mult, a, b)
    _uns("dot")


@model(np.cross)
def _(interp, args, kw):
    if not anysym(args):
        return NotImplemented
    if len(args) > 2 or kw:
        _uns("cross axes")
    a, b = (list(interp.as_list(x, 3)) for x in args)
    o = np.empty(3, dtype=object)
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        o[i] = a[j] * b[k] - a[k] * b[j]
    return o


@model(np.linalg.norm)
def _(interp, args, kw):
    if not anysym(args):
        return NotImplemented
    x = args[0]
    if isinstance(x, (list, tuple)):
        x = np.asarray(x, dtype=object)
    if isinstance(x, np.ndarray) and (x.ndim == 1):
        t = 0
        for v in x:
            t = t + v * v
        return fn("sqrt", t)
    if hasattr(x, "_norm"):
        return x._norm(kw.get("axis", args[2] if len(args) > 2 else None))
    _uns("norm")


@model(np.shape)
def _(interp, args, kw):
    x = args[0]
    if hasattr(x, "shape") and isinstance(x, Sym):
        return x.shape
    if isinstance(x, (Num, SBool)):
        return ()
    if isinstance(x, np.ndarray):
        return x.shape
    return NotImplemented


@model(np.isscalar)
def _(interp, args, kw):
    x = args[0]
    if isinstance(x, (Num, SBool, Fraction)):
        return True
    if isinstance(x, Sym):
        return False
    return NotImplemented


@model(np.ndim)
def _(interp, args, kw):
    x = args[0]
    if isinstance(x, (Num, SBool, Fraction)):
        return 0
    if isinstance(x, Seq):
        return 1
    if isinstance(x, np.ndarray) or isinstance(x, Sym) and hasattr(x, "ndim"):
        return x.ndim
    return NotImplemented


@model(np.isnan, math.isnan)
def _(interp, args, kw):
    if anysym(args):
        ctx.trust("symbolic reals are never nan")
        return vec_apply(lambda v: False, args[0])
    return NotImplemented


@model(np.isfinite, math.isfinite)
def _(interp, args, kw):
    if anysym(args):
        return vec_apply(lambda v: True, args[0])
    return NotImplemented


@model(np.linspace)
def _(interp, args, kw):
    a = list(args)
    st, en = a[0], a[1]
    num = a[2] if len(a) > 2 else kw.get("num", 50)
    ep = a[3] if len(a) > 3 else kw.get("endpoint", True)
    if not anysym([st, en, num]):
        if not _exactable(st) and all(isinstance(x, (int, Fraction)) for x in (st, en)) and isinstance(num, int):
            dv = (num - 1) if ep else num
            return np.array([Fraction(st) + (Fraction(en) - Fraction(st)) * k / dv if dv else Fraction(st) for k in range(num)], dtype=object)
        return NotImplemented
    if isinstance(num, Num):
        n = zi(num)
        dv = n - 1 if ep else n
        return Seq(n, lambda j: st + (en - st) * mkn(z3.ToReal(j)) / Num(z3.ToReal(dv)), True)
    dv = (num - 1) if ep else num
    o = np.empty(num, dtype=object)
    for k in range(num):
        o[k] = st + (en - st) * Fraction(k, dv) if dv else st
    return o


@model(np.zeros, np.ones, np.empty)
def _(interp, args, kw):
    return NotImplemented


@model(np.full)
def _(interp, args, kw):
    if not anysym(args):
        return NotImplemented
    return Seq(zi(args[0]), lambda j: args[1], True)


@model(np.ones, np.zeros)
def _(interp, args, kw):
    return NotImplemented


def _const_vec(val):
    def m(interp, args, kw):
        if anysym(args):
            return Seq(zi(args[0]), lambda j: (bool(val) if kw.get("dtype") is bool or (len(args) > 1 and args[1] is bool) else val), True)
        return NotImplemented
    return m


MODELS[np.ones] = _const_vec(1)
MODELS[np.zeros] = _const_vec(0)


@model(np.diff)
def _(interp, args, kw):
    x = args[0]
    if isinstance(x, Seq):
        return Seq(z3.simplify(z3.If(x.n > 0, x.n - 1, z3.IntVal(0))), lambda j: interp.binop(_ast.Sub, x.get(j + 1), x.get(j)), True)
    if is_sym(x):
        xs = interp.as_list(x)
        return np.array([interp.binop(_ast.Sub, b, a) for a, b in zip(xs, xs[1:])] + [None], dtype=object)[:-1]
    return NotImplemented


@model(np.concatenate, np.hstack)
def _(interp, args, kw):
    if not anysym(args):
        return NotImplemented
    parts = args[0]
    out = []
    if isinstance(parts, Seq) and parts.concrete_len() is None:
        e = parts.get(seq.gvar("probe"))
        if not isinstance(e, (Seq, list, np.ndarray)):
            _uns("concatenate")
        def inner(j):
            x = parts.get(j)
            return x if isinstance(x, Seq) else of_list(list(x))
        if isinstance(parts, FSeq):
            _uns("concatenate of filtered parts")
        return seq.FlatSeq(parts.n, inner, True)
    for p in parts:
        p = list(p) if isinstance(p, np.ndarray) else p
        out = seq.concat(interp, out, p)
    return out.as_vec() if isinstance(out, Seq) else np.array(out + [None], dtype=object)[:-1]


@model(np.append)
def _(interp, args, kw):
    if not anysym(args):
        return NotImplemented
    a, b = args
    b = [b] if not isinstance(b, (list, np.ndarray, Seq)) else (list(b) if isinstance(b, np.ndarray) else b)
    r = seq.concat(interp, list(a) if isinstance(a, np.ndarray) else a, b)
    return r.as_vec() if isinstance(r, Seq) else np.array(r + [None], dtype=object)[:-1]


@model(np.argmin)
def _(interp, args, kw):
    return _arg(interp, args, False)


@model(np.argmax)
def _(interp, args, kw):
    return _arg(interp, args, True)


def _arg(interp, args, mx):
    x = args[0]
    if not is_sym(x):
        return NotImplemented
    if not isinstance(x, Seq):
        x = of_list(interp.as_list(x))
    j = fresh("arg", "int")
    if not decide(x.n > 0):
        raise SymRaise(ValueError("empty"))
    k = seq.gvar("x")
    v, e = x.get(j), x.get(k)
    assume(z3.And(j >= 0, j < x.n))
    assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < x.n), zb(e <= v) if mx else zb(e >= v))))
    assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < j), zb(e < v) if mx else zb(e > v))))
    return Num(j)


@model(np.searchsorted)
def _(interp, args, kw):
    if not anysym(args, kw):
        return NotImplemented
    a = args[0]
    v = args[1] if len(args) > 1 else kw["v"]
    side = kw.get("side", args[2] if len(args) > 2 else "left")
    a = a if isinstance(a, Seq) else of_list(interp.as_list(a), True)
    k, l = seq.gvar("x"), seq.gvar("y")
    core.oblig("searchsorted: array sorted", z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k <= l, l < a.n), zb(a.get(k) <= a.get(l)))))

    def one(x):
        r = fresh("ss", "int")
        assume(z3.And(r >= 0, r <= a.n))
        q = seq.gvar("z")
        lt = (lambda e: zb(e < x)) if side == "left" else (lambda e: zb(e <= x))
        assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < r), lt(a.get(q)))))
        assume(z3.ForAll([q], z3.Implies(z3.And(q >= r, q < a.n), z3.Not(lt(a.get(q))))))
        return Num(r)
    if isinstance(v, Seq):
        # generic element
        n, i, cond, val, filt = seq.generic_map(interp, v, one)
        return Seq(v.n, val, True)
    if isinstance(v, (list, np.ndarray)):
        return np.array([one(x) for x in v], dtype=object)
    return one(v)


@model(_copy.deepcopy)
def _(interp, args, kw):
    return deep(args[0]) if is_sym(args[0]) else NotImplemented


@model(_copy.copy)
def _(interp, args, kw):
    x = args[0]
    if not is_sym(x):
        return NotImplemented
    if isinstance(x, SObj):
        return SObj(x.cls, dict(x.fields), x.extra)
    if isinstance(x, list):
        return ctx.born(list(x))
    if isinstance(x, dict):
        return dict(x)
    if isinstance(x, (Num, SBool)):
        return x
    if hasattr(x, "_copy"):
        return x._copy()
    _uns("shallow copy of " + type(x).__name__)


def deep(x):
    if isinstance(x, SObj):
        return SObj(x.cls, {k: deep(v) for k, v in x.fields.items()}, x.extra)
    if isinstance(x, list):
        return ctx.born([deep(v) for v in x])
    if isinstance(x, dict):
        return {k: deep(v) for k, v in x.items()}
    if hasattr(x, "_deepcopy"):
        return x._deepcopy()
    return x


@model(functools.reduce)
def _(interp, args, kw):
    it = seq.iterable(interp, args[1])
    if isinstance(it, Seq):
        _uns("reduce")
    xs = list(it)
    acc = args[2] if len(args) > 2 else xs.pop(0)
    for x in xs:
        acc = interp.call(args[0], [acc, x])
    return acc


# ---- sorting: a permutation p with a[p] in order. np.sort(a) == a[np.argsort(a)] for one and the same array.
_PERMS = {}


def perm_of(a):
    """a: Seq. Returns (p, inv): z3 functions with a[p(k)] nondecreasing (assumed, numpy contract)."""
    hit = _PERMS.get(id(a))
    if hit is None or hit[0] is not a:
        ctx.fresh_n += 1
        I = z3.IntSort()
        p, q = z3.Function(f"perm!{ctx.fresh_n}", I, I), z3.Function(f"iperm!{ctx.fresh_n}", I, I)
        k, l = seq.gvar("x"), seq.gvar("y")
        n = a.n
        facts = [z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(p(k) >= 0, p(k) < n, q(p(k)) == k)), patterns=[p(k)]),
                 z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(q(k) >= 0, q(k) < n, p(q(k)) == k)), patterns=[q(k)]),
                 z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k <= l, l < n), zb(a.get(p(k)) <= a.get(p(l)))),
                           patterns=[z3.MultiPattern(p(k), p(l))])]
        if len(_PERMS) > 200:
            _PERMS.clear()
        hit = _PERMS[id(a)] = (a, p, q, facts)
    for f in hit[3]:
        assume(f)
    ctx.trust("numpy sort/argsort: a permutation into nondecreasing order")
    return hit[1], hit[2]


@model(np.argsort)
def _(interp, args, kw):
    if not anysym(args, kw):
        return NotImplemented
    if not isinstance(args[0], Seq) or args[0].concrete_len() is not None:
        raise Unsupported("argsort")
    p, q = perm_of(args[0])
    return Seq(args[0].n, lambda j: Num(p(j)), True)


@model(np.sort)
def _(interp, args, kw):
    if not anysym(args, kw):
        return NotImplemented
    a = args[0]
    if not isinstance(a, Seq) or a.concrete_len() is not None:
        raise Unsupported("sort")
    p, q = perm_of(a)
    return Seq(a.n, lambda j: a.get(p(j)), True)
