"""Core of the deductive verifier: symbolic values, path conditions, exploration, proving.

Numbers are mathematical reals/integers (floats treated as reals: stated assumption).
Transcendental functions are uninterpreted with axioms instantiated per occurring term.
"""
import sys, os, time, subprocess, tempfile, itertools, copy
from fractions import Fraction
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3
import numpy as np

z3.set_param("auto_config", True)


class Unsupported(Exception):
    """Construct outside the verifier's reach (never a violation)."""


class PathEnd(Exception):
    """Current path is infeasible / cut."""


class SymRaise(Exception):
    """An exception raised by interpreted code."""

    def __init__(self, exc, cls=None):
        self.exc = exc
        self.cls = cls or (type(exc) if isinstance(exc, BaseException) else exc)


# ---------------------------------------------------------------- context
class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.pc = []  # list of (kind, z3 Bool)
        self.scopes = []  # exploration scopes: dict(prefix, pos, stack)
        self.gvars = []
        self.fresh_n = 0
        self.obligs = []  # side obligations (name, pc snapshot, goal)
        self.quick_ms = 400
        self.stats = dict(paths=0, prunes=0)
        self.trusted = set()
        self.functions = set()
        self.loop_effects = None
        self.deadline = None
        self.journal = []  # undo closures
        self.shared = []
        self.chosen = []
        self.defs = []  # definitions of fresh index functions: hold on every path of the current run
        self.tick = 0
        self.births = {}
        self.mut_flags = []

    def born(self, o):
        self.births[id(o)] = (self.tick, o)
        return o

    def note_mut(self, o, undo):
        b = self.births.get(id(o))
        t = b[0] if b is not None and b[1] is o else -1
        self.journal.append(undo)
        for fl in self.mut_flags:
            if t < fl["tick"]:
                fl["mut"] = True

    def formulas(self):
        return self.defs + [f for _, f in self.pc]

    def trust(self, what):
        self.trusted.add(what)

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported("time budget for symbolic execution exhausted")


ctx = Ctx()


def assume(f):
    f = zb(f)
    if z3.is_true(f):
        return
    ctx.pc.append(("fact", f))


def define(f):
    """Definition of fresh symbols that mentions no generic index: true whatever branch is being explored."""
    f = zb(f)
    if not z3.is_true(f):
        ctx.defs.append(f)


def oblig(name, goal):
    """Obligation that must hold at this point of the current path (asserted, then assumed)."""
    goal = zb(goal)
    ctx.obligs.append((name, list(ctx.formulas()), goal, list(ctx.gvars)))
    ctx.pc.append(("fact", goal))


# ---------------------------------------------------------------- values
PI = z3.Real("PI")
IPI = z3.Real("IPI")  # 1/PI


def rv(x):
    return z3.RealVal(str(x) if isinstance(x, Fraction) else str(Fraction(x)))


def frac_of_float(x):
    """A concrete Python float as an exact rational (decimal reading, so 0.1 is 1/10)."""
    from decimal import Decimal

    return Fraction(Decimal(repr(float(x))))


class Sym:
    _vf_model = True
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __eq__(self, o):
        # never Python's identity: a symbolic value whose equality has no model is outside the subset
        if self is o:
            return True
        if o is None or isinstance(o, str):
            return False
        raise Unsupported(f"== of {type(self).__name__} and {type(o).__name__}")

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = object.__hash__


def is_num(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating)) and not isinstance(x, bool)


def zn(x):
    """z3 arithmetic expr of a number-like value."""
    if isinstance(x, Num):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, Fraction):
        return rv(x)
    if isinstance(x, (float, np.floating)):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("nan/inf constant")
        return rv(frac_of_float(x))
    if isinstance(x, z3.ArithRef):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return zn(x.item())
    raise Unsupported(f"not a number: {type(x)}")


def zr(x):
    e = zn(x)
    return z3.ToReal(e) if e.is_int() else e


def zb(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, Num):
        return x.e != 0
    if z3.is_quantifier(x):
        return x
    raise Unsupported(f"not a bool: {type(x)}")


def both(a, b):
    a, b = zn(a), zn(b)
    if a.is_int() != b.is_int():
        a = z3.ToReal(a) if a.is_int() else a
        b = z3.ToReal(b) if b.is_int() else b
    return a, b


def const_of(e):
    """Fraction/int value of a z3 numeral, or None."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL) and z3.is_int_value(e.arg(0)):
        return e.arg(0).as_long()
    return None


def lift(o):
    return is_num(o) or isinstance(o, (Num, SBool, bool, np.bool_))


class Num(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def is_int(self):
        return self.e.is_int()

    # arithmetic
    def _bin(self, o, f, rev=False):
        if isinstance(o, np.ndarray):
            return NotImplemented if o.ndim else self._bin(o.item(), f, rev)
        if not lift(o):
            return NotImplemented
        a, b = both(self, o)
        return Num(f(b, a) if rev else f(a, b))

    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return arr_map2(lambda a, b: a + b, self, o)
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return arr_map2(lambda a, b: a - b, self, o)
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return arr_map2(lambda a, b: a * b, self, o)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return arr_map2(lambda a, b: a / b, self, o)
        if not lift(o):
            return NotImplemented
        return Num(div(zr(self), zr(o)))

    def __rtruediv__(self, o):
        if not lift(o):
            return NotImplemented
        return Num(div(zr(o), zr(self)))

    def __floordiv__(self, o):
        if not lift(o):
            return NotImplemented
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        if not lift(o):
            return NotImplemented
        return mod(self, o)

    def __rmod__(self, o):
        return mod(o, self)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return Num(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return Num(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim:
            return arr_map2(f, self, o)
        if o is None or isinstance(o, str):
            return NotImplemented
        if not lift(o):
            return NotImplemented
        a, b = both(self, o)
        return mkb(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: a != b)

    __hash__ = object.__hash__

    def __bool__(self):
        return decide(self.e != 0)

    def __float__(self):
        raise Unsupported("float() of a symbolic number outside the interpreter")

    def __index__(self):
        c = const_of(z3.simplify(self.e))
        if isinstance(c, int):
            return c
        raise Unsupported("symbolic index used natively")

    __int__ = __index__

    def __repr__(self):
        return f"Num({self.e})"

    def _subst(self, pairs):
        return Num(z3.substitute(self.e, *pairs))


class SBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return decide(self.e)

    def __and__(self, o):
        if not lift(o):
            return NotImplemented
        return mkb(z3.And(self.e, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        if not lift(o):
            return NotImplemented
        return mkb(z3.Or(self.e, zb(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkb(z3.Xor(self.e, zb(o)))

    def __invert__(self):
        return mkb(z3.Not(self.e))

    def __eq__(self, o):
        if o is None:
            return False
        if isinstance(o, (bool, np.bool_, SBool)):
            return mkb(self.e == zb(o))
        if is_num(o) or isinstance(o, Num):
            return Num(zn(self)) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (~r if isinstance(r, SBool) else not r)

    __hash__ = object.__hash__

    def __add__(self, o):
        return Num(zn(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return Num(zn(self)) - o

    def __mul__(self, o):
        return Num(zn(self)) * o

    __rmul__ = __mul__

    def __repr__(self):
        return f"SBool({self.e})"

    def _subst(self, pairs):
        return mkb(z3.substitute(self.e, *pairs))


def mkb(e):
    if isinstance(e, bool):
        return e
    s = e if z3.is_true(e) or z3.is_false(e) else e
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SBool(s)


def mkn(e):
    c = const_of(e)
    if c is not None:
        return c
    return Num(e)


def arr_map2(f, a, b):
    a_, b_ = np.asarray(a, dtype=object) if not isinstance(a, Sym) else a, b
    if isinstance(a, Sym):
        out = np.empty(b.shape, dtype=object)
        for ix in np.ndindex(b.shape):
            out[ix] = f(a, b[ix])
        return out
    raise Unsupported("arr_map2")


def fresh(name, sort="real"):
    ctx.fresh_n += 1
    n = f"{name}!{ctx.fresh_n}"
    s = {"real": z3.RealSort(), "int": z3.IntSort(), "bool": z3.BoolSort()}[sort]
    if ctx.gvars:
        f = z3.Function(n, *[z3.IntSort()] * len(ctx.gvars), s)
        return f(*ctx.gvars)
    return z3.Const(n, s)


def freal(name):
    return Num(fresh(name, "real"))


def fint(name):
    return Num(fresh(name, "int"))


def fbool(name):
    return SBool(fresh(name, "bool"))


# ---------------------------------------------------------------- arithmetic helpers
def div(a, b):
    cb = const_of(b)
    if cb is not None and cb != 0:
        ca = const_of(a)
        if ca is not None:
            return rv(Fraction(ca) / Fraction(cb))
        return a * rv(1 / Fraction(cb))
    if const_of(a) == 0 and ctx.scopes and not feasible(b == 0):
        return z3.RealVal(0)
    # division by a rational multiple of PI
    k, hit, other = Fraction(1), 0, False
    for t in (b.children() if z3.is_mul(b) else [b]):
        v = const_of(t)
        if v is not None:
            k *= Fraction(v)
        elif t.eq(PI):
            hit += 1
        else:
            other = True
    if hit == 1 and not other and k != 0:
        return a * IPI * rv(1 / k)
    return a / b


def floor_z(e):
    return e if e.is_int() else z3.ToInt(e)


def floordiv(a, b):
    za, zb_ = both(a, b)
    if za.is_int():
        c = const_of(zb_)
        if c is not None:
            if c > 0:
                return Num(za / zb_)
        elif decide(zb_ > 0):
            return Num(za / zb_)
        raise Unsupported("integer division by non-positive")
    return Num(z3.ToReal(z3.ToInt(div(za, zb_))))


def mod(a, b):
    """Python / numpy modulo (sign of divisor)."""
    za, zb_ = both(a, b)
    if za.is_int():
        c = const_of(zb_)
        if (c is not None and c > 0) or (c is None and decide(zb_ > 0)):
            return Num(za % zb_)
        raise Unsupported("integer modulo by non-positive")
    return Num(za - zb_ * z3.ToReal(z3.ToInt(div(za, zb_))))


def power(a, b):
    if isinstance(b, (np.floating, float)):
        b = frac_of_float(b)
    if isinstance(b, Fraction) and b.denominator == 1:
        b = int(b)
    if isinstance(b, (int, np.integer)) and not isinstance(b, bool):
        b = int(b)
        if not isinstance(a, Num):
            if isinstance(a, (float, np.floating)):
                a = frac_of_float(a)
            return a**b if b >= 0 else Fraction(1) / Fraction(a) ** (-b)
        if abs(b) <= 12:
            e = z3.IntVal(1) if a.is_int else z3.RealVal(1)
            if b == 0:
                return Num(e)
            r = a.e
            for _ in range(abs(b) - 1):
                r = r * a.e
            return Num(r) if b > 0 else Num(div(z3.RealVal(1), zr(Num(r))))
        raise Unsupported("large power")
    if isinstance(b, Fraction):
        if b == Fraction(1, 2):
            return fn("sqrt", a)
        if b == Fraction(1, 3):
            return fn("cbrt", a)
        if b.denominator == 2:
            k = (b.numerator - 1) // 2
            return power(a, k) * fn("sqrt", a)
        return Num(UF2["pow"](zr(a), rv(b)))
    if not isinstance(a, Num) and a == 10:
        return Num(UF1["pow10"](zr(b)))
    return Num(UF2["pow"](zr(a), zr(b)))


_R = z3.RealSort()
UF1 = {n: z3.Function("f_" + n, _R, _R) for n in
       ["sin", "cos", "asin", "acos", "atan", "sqrt", "cbrt", "exp", "log", "pow10"]}
UF2 = {n: z3.Function("f_" + n, _R, _R, _R) for n in ["atan2", "pow"]}

_norm_cache = {}


def norm(e):
    k = e.get_id()
    r = _norm_cache.get(k)
    if r is None:
        r = _cancel_pi(z3.simplify(e, som=True))
        _norm_cache[k] = r
        _norm_cache[("keep", k)] = e
    return r


def _cancel_pi(e):
    """PI * IPI -> 1 inside the monomials of a sum."""
    if z3.is_add(e):
        ch = e.children()
        new = [_cancel_pi(c) for c in ch]
        if any(not a.eq(b) for a, b in zip(ch, new)):
            return z3.simplify(z3.Sum(*new), som=True)
        return e
    if z3.is_mul(e):
        fl = []
        st = list(e.children())
        while st:
            t = st.pop(0)
            if z3.is_mul(t):
                st = list(t.children()) + st
            elif z3.is_app_of(t, z3.Z3_OP_POWER) and z3.is_rational_value(t.arg(1)) and (t.arg(0).eq(PI) or t.arg(0).eq(IPI)):
                fl += [t.arg(0)] * int(const_of(t.arg(1)))
            else:
                fl.append(t)
        np_, ni = sum(t.eq(PI) for t in fl), sum(t.eq(IPI) for t in fl)
        k = min(np_, ni)
        if k:
            a = b = k
            out = []
            for t in fl:
                if t.eq(PI) and a:
                    a -= 1
                elif t.eq(IPI) and b:
                    b -= 1
                else:
                    out.append(t)
            return z3.simplify(z3.Product(*out), som=True) if len(out) > 1 else (out[0] if out else z3.RealVal(1))
    return e


def linear_terms(e):
    """Decompose a normalised sum into {term: Fraction} plus constant (terms are z3 exprs)."""
    out = {}

    def add(t, c):
        if z3.is_add(t):
            for ch in t.children():
                add(ch, c)
            return
        if z3.is_mul(t):
            k = Fraction(1)
            rest = []
            for ch in t.children():
                v = const_of(ch)
                if v is not None:
                    k *= Fraction(v)
                else:
                    rest.append(ch)
            if not rest:
                out[None] = out.get(None, (None, Fraction(0)))[0:1] + (out.get(None, (None, Fraction(0)))[1] + c * k,)
                return
            if len(rest) == 1 and z3.is_add(rest[0]):
                for ch in rest[0].children():
                    add(ch, c * k)
                return
            m = rest[0] if len(rest) == 1 else z3.simplify(z3.Product(*rest)) if False else _prod(rest)
            kk = m.get_id()
            out[kk] = (m, out.get(kk, (m, Fraction(0)))[1] + c * k)
            return
        v = const_of(t)
        if v is not None:
            out[None] = (None, out.get(None, (None, Fraction(0)))[1] + c * Fraction(v))
            return
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            add(t.arg(0), -c)
            return
        if z3.is_app_of(t, z3.Z3_OP_SUB):
            ch = t.children()
            add(ch[0], c)
            for x in ch[1:]:
                add(x, -c)
            return
        kk = t.get_id()
        out[kk] = (t, out.get(kk, (t, Fraction(0)))[1] + c)

    add(norm(e), Fraction(1))
    return {k: v for k, v in out.items() if v[1] != 0}


def _prod(rest):
    p = rest[0]
    for r in rest[1:]:
        p = p * r
    return p


TRIG_EXPAND = True


def trig(name, x):
    """sin/cos with exact reduction of multiples of PI/2 and of sign; sums of several atoms expanded."""
    e = zr(x)
    lt = linear_terms(e)
    pi_id = PI.get_id()
    shift = Fraction(0)
    if pi_id in lt:
        q = lt[pi_id][1] * 2  # multiples of PI/2
        if q.denominator == 1:
            shift = q
            del lt[pi_id]
    terms = sorted(lt.items(), key=lambda kv: str(kv[1][0]) if kv[1][0] is not None else "")
    s, c = _sincos([v for _, v in terms])
    k = int(shift) % 4
    # sin(x + k pi/2)
    sinv = [s, c, -s, -c][k]
    cosv = [c, -s, -c, s][k]
    return Num(sinv if name == "sin" else cosv)


def _term(t, c):
    return rv(c) if t is None else (t if c == 1 else rv(c) * t)


def _sincos(terms):
    if not terms:
        return z3.RealVal(0), z3.RealVal(1)
    if len(terms) == 1 or not TRIG_EXPAND:
        neg = all(c < 0 for _, c in terms)
        if neg:
            terms = [(t, -c) for t, c in terms]
        parts = [_term(t, c) for t, c in terms]
        a = parts[0] if len(parts) == 1 else z3.Sum(*parts)
        # composite inverse functions
        if len(terms) == 1 and terms[0][1] == 1 and terms[0][0] is not None and z3.is_app(a):
            d = a.decl()
            if d.eq(UF1["acos"]):
                s, c = UF1["sqrt"](norm(1 - a.arg(0) * a.arg(0))), a.arg(0)
                acos_used(a.arg(0))
                return (-s if neg else s), c
            if d.eq(UF1["asin"]):
                s, c = a.arg(0), UF1["sqrt"](norm(1 - a.arg(0) * a.arg(0)))
                return (-s if neg else s), c
            if d.eq(UF1["atan"]):
                r = UF1["sqrt"](norm(1 + a.arg(0) * a.arg(0)))
                s, c = a.arg(0) / r, 1 / r
                return (-s if neg else s), c
        s, c = UF1["sin"](a), UF1["cos"](a)
        return (-s if neg else s), c
    s1, c1 = _sincos(terms[:1])
    s2, c2 = _sincos(terms[1:])
    return s1 * c2 + c1 * s2, c1 * c2 - s1 * s2


def acos_used(arg):
    pass


DOMAIN_CHECKS = True


def fn(name, *args):
    """Apply a mathematical function to (possibly symbolic) numbers."""
    if all(not isinstance(a, Sym) for a in args):
        import math

        xs = [float(a) for a in args]
        if name == "sqrt" and isinstance(args[0], (int, Fraction)) and args[0] >= 0:
            f = Fraction(args[0])
            import math as m

            n, d = m.isqrt(f.numerator), m.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return Fraction(n, d)
            return Num(UF1["sqrt"](rv(f)))
        if xs[0] == 0 and name in ("sin", "asin", "atan", "cbrt"):
            return 0
        if xs[0] == 0 and name == "cos":
            return 1
        if name == "acos" and xs[0] in (0, 1, -1):
            return {0: Num(PI / 2), 1: 0, -1: Num(PI)}[int(xs[0])]
        if name == "asin" and xs[0] in (1, -1):
            return Num(PI / 2 * int(xs[0]))
        if name in UF1:
            return Num(UF1[name](zr(args[0])))
        return Num(UF2[name](*[zr(a) for a in args]))
    if name in ("sin", "cos"):
        return trig(name, args[0])
    if name == "tan":
        a, b, neg = trig("sin", args[0]).e, trig("cos", args[0]).e, False
        if z3.is_app_of(a, z3.Z3_OP_UMINUS):
            a, neg = a.arg(0), not neg
        if z3.is_app_of(b, z3.Z3_OP_UMINUS):
            b, neg = b.arg(0), not neg
        t = Num(a) / Num(b)
        return -t if neg else t
    if name in UF1:
        a = norm(zr(args[0]))
        if DOMAIN_CHECKS:
            if name in ("asin", "acos"):
                oblig(f"arc{name[1:]} argument within [-1, 1]", z3.And(a >= -1, a <= 1))
            elif name == "sqrt":
                oblig("square root argument not negative", a >= 0)
        return Num(UF1[name](a))
    return Num(UF2[name](*[norm(zr(a)) for a in args]))


# ---------------------------------------------------------------- axioms for uninterpreted functions
_apps_cache = {}


def collect_apps(fs):
    """Applications of the mathematical functions (f_*) in fs, by name."""
    out = {}
    for f in fs:
        k = f.get_id()
        r = _apps_cache.get(k)
        if r is None:
            r = (f, _collect1(f))
            if len(_apps_cache) > 20000:
                _apps_cache.clear()
            _apps_cache[k] = r
        for nm, d in r[1].items():
            out.setdefault(nm, {}).update(d)
    return out


def uninterpreted(fs):
    """Names of all uninterpreted functions (arity > 0) in fs."""
    seen, out, stack = set(), set(), list(fs)
    while stack:
        t = stack.pop()
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
                out.add(t.decl().name())
            stack.extend(t.children())
    return out


def _collect1(f):
    seen, apps = set(), {}
    stack = [f]
    while stack:
        t = stack.pop()
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
                nm = t.decl().name()
                if nm.startswith("f_"):
                    apps.setdefault(nm[2:], {})[i] = t
            stack.extend(t.children())
    return apps


def has_var(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        stack.extend(x.children())
    return False


def axioms(fs, rounds=2, pairwise=True):
    out = [PI > rv(Fraction(314159265358, 10**11)), PI < rv(Fraction(314159265359, 10**11)), PI * IPI == 1,
           IPI > rv(Fraction(31830988618, 10**11)), IPI < rv(Fraction(31830988619, 10**11))]
    done = set()
    S, C, AS, AC, AT, SQ, CB, A2 = (UF1["sin"], UF1["cos"], UF1["asin"], UF1["acos"], UF1["atan"],
                                    UF1["sqrt"], UF1["cbrt"], UF2["atan2"])
    cur = list(fs)
    for _ in range(rounds):
        apps = collect_apps(cur + out)
        new = []
        args = {}
        for nm in ("sin", "cos"):
            for t in apps.get(nm, {}).values():
                if not has_var(t):
                    args[t.arg(0).get_id()] = t.arg(0)
        for i, a in args.items():
            if ("sc", i) in done:
                continue
            done.add(("sc", i))
            s, c = S(a), C(a)
            new += [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1,
                    z3.Implies(z3.And(a >= 0, a <= PI), s >= 0),
                    z3.Implies(z3.And(a > 0, a < PI), s > 0),
                    z3.Implies(z3.And(a >= -PI, a <= 0), s <= 0),
                    z3.Implies(z3.And(a > -PI / 2, a < PI / 2), c > 0),
                    z3.Implies(z3.And(a > PI / 2, a <= PI), c < 0),
                    z3.Implies(a == PI / 2, z3.And(c == 0, s == 1)),
                    z3.Implies(a == PI, z3.And(c == -1, s == 0)),
                    z3.Implies(a == 0, z3.And(s == 0, c == 1))]
        for nm, t in [(n, t) for n in apps for t in apps[n].values()]:
            k = (nm, t.get_id())
            if k in done or has_var(t):
                continue
            done.add(k)
            a = t.arg(0)
            if nm == "asin":
                ok = z3.And(a >= -1, a <= 1)
                new += [z3.Implies(ok, z3.And(t >= -PI / 2, t <= PI / 2)),
                        z3.Implies(z3.And(ok, a >= 0), t >= 0), z3.Implies(z3.And(ok, a <= 0), t <= 0),
                        z3.Implies(a == 1, t == PI / 2), z3.Implies(a == 0, t == 0), z3.Implies(a == -1, t == -PI / 2),
                        z3.Implies(z3.And(ok, a < 1), t < PI / 2), z3.Implies(z3.And(ok, a > -1), t > -PI / 2)]
                if z3.is_app(a) and a.decl().eq(S):
                    x = a.arg(0)
                    new.append(z3.Implies(z3.And(x >= -PI / 2, x <= PI / 2), t == x))
            elif nm == "acos":
                ok = z3.And(a >= -1, a <= 1)
                new += [z3.Implies(ok, z3.And(t >= 0, t <= PI)),
                        z3.Implies(z3.And(ok, a >= 0), t <= PI / 2), z3.Implies(z3.And(ok, a <= 0), t >= PI / 2),
                        z3.Implies(a == 1, t == 0), z3.Implies(a == 0, t == PI / 2), z3.Implies(a == -1, t == PI),
                        z3.Implies(z3.And(ok, a < 1), t > 0), z3.Implies(z3.And(ok, a > -1), t < PI),
                        z3.Implies(ok, t == PI / 2 - AS(a))]
                if z3.is_app(a) and a.decl().eq(C):
                    x = a.arg(0)
                    new.append(z3.Implies(z3.And(x >= 0, x <= PI), t == x))
            elif nm == "atan":
                new += [t > -PI / 2, t < PI / 2, z3.Implies(a > 0, t > 0), z3.Implies(a < 0, t < 0),
                        z3.Implies(a == 0, t == 0)]
            elif nm == "sqrt":
                new += [z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)), z3.Implies(a > 0, t > 0),
                        z3.Implies(a == 1, t == 1), z3.Implies(a == 0, t == 0)]
            elif nm == "cbrt":
                new += [t * t * t == a, z3.Implies(a > 0, t > 0), z3.Implies(a < 0, t < 0), z3.Implies(a == 0, t == 0)]
            elif nm == "atan2":
                y, x = t.arg(0), t.arg(1)
                r = SQ(norm(x * x + y * y))
                new += [t > -PI, t <= PI, r * S(t) == y, r * C(t) == x,
                        z3.Implies(z3.And(y == 0, x > 0), t == 0), z3.Implies(z3.And(y == 0, x < 0), t == PI),
                        z3.Implies(y > 0, z3.And(t > 0, t < PI)), z3.Implies(y < 0, t < 0)]
            elif nm in ("exp", "pow10"):
                new += [t > 0]
            elif nm == "pow":
                new += [z3.Implies(a > 0, t > 0), z3.Implies(a == 0, z3.Implies(t.arg(1) > 0, t == 0)),
                        z3.Implies(a == 1, t == 1)]
        out += new
        if not new:
            break
    if pairwise:
        apps = collect_apps(cur + out)
        for nm in ("asin", "acos", "atan", "sqrt", "cbrt"):
            ts = [t for t in apps.get(nm, {}).values() if not has_var(t)]
            if len(ts) > 6:
                continue
            for t, u in itertools.combinations(ts, 2):
                a, b = t.arg(0), u.arg(0)
                dom = {"asin": lambda z: z3.And(z >= -1, z <= 1), "acos": lambda z: z3.And(z >= -1, z <= 1),
                       "sqrt": lambda z: z >= 0}.get(nm, lambda z: z3.BoolVal(True))
                lt = (t > u) if nm == "acos" else (t < u)
                gt = (t < u) if nm == "acos" else (t > u)
                out += [z3.Implies(z3.And(dom(a), dom(b), a < b), lt), z3.Implies(z3.And(dom(a), dom(b), a > b), gt)]
                if nm in ("asin", "atan", "cbrt"):
                    out.append(z3.Implies(a == -b, t == -u))
        for f, lo, hi, up in ((S, -PI / 2, PI / 2, True), (C, z3.RealVal(0), PI, False)):
            ts = [t for t in apps.get("sin" if f is S else "cos", {}).values() if not has_var(t)]
            if len(ts) > 5:
                continue
            for t, u in itertools.combinations(ts, 2):
                a, b = t.arg(0), u.arg(0)
                dom = z3.And(a >= lo, a <= hi, b >= lo, b <= hi)
                out += [z3.Implies(z3.And(dom, a < b), (t < u) if up else (t > u)),
                        z3.Implies(z3.And(dom, a > b), (t > u) if up else (t < u))]
    return out


# ---------------------------------------------------------------- exploration
def feasible(extra=None, ground=False):
    """False only if the current path condition (plus extra) is definitely unsatisfiable."""
    fs = ctx.formulas() + ([extra] if extra is not None else [])
    qs = [has_quant(f) for f in fs]
    if ground:
        if not any(qs):
            return None
        fs = [f for f, q in zip(fs, qs) if not q]
    s = z3.Solver()
    s.set("timeout", 80 if any(qs) else ctx.quick_ms)
    for f in fs:
        s.add(f)
    nl = any(True for _ in collect_apps(fs))
    if nl:
        for a in axioms(fs, rounds=1, pairwise=False):
            s.add(a)
    return s.check() != z3.unsat


def decide(cond):
    """Branch on a symbolic condition (forks the exploration)."""
    ctx.check_deadline()
    cond = z3.simplify(zb(cond))
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    if not ctx.scopes:
        raise Unsupported("branch on symbolic value outside exploration")
    sc = ctx.scopes[-1]
    pos = sc["pos"]
    if pos < len(sc["prefix"]):
        v = sc["prefix"][pos]
    else:
        # quantifier-free part of the path first: one side is often excluded at once (the path itself is feasible)
        t, f = feasible(cond, ground=True), feasible(z3.Not(cond), ground=True)
        if t is None or (t and f):
            t = feasible(cond)
            f = feasible(z3.Not(cond)) if t else True
        if t and f:
            sc["stack"].append(sc["prefix"] + [False])
            v = True
        elif t:
            v = True
        elif f:
            v = False
        else:
            raise PathEnd()
        sc["prefix"] = sc["prefix"] + [v]
    sc["pos"] += 1
    ctx.pc.append(("br", cond if v else z3.Not(cond)))
    return v


class Path:
    def __init__(self, entries, kind, value, obligs=None):
        self.entries = entries  # list of (kind, formula) added in this exploration
        self.kind = kind  # 'ret' | 'raise' | custom
        self.value = value
        self.mutated = False

    @property
    def cond(self):
        br = [f for k, f in self.entries if k == "br"]
        return z3.And(*br) if br else z3.BoolVal(True)

    @property
    def facts(self):
        """facts guarded by the branch conditions preceding them."""
        out, br = [], []
        for k, f in self.entries:
            if k == "br":
                br.append(f)
            else:
                out.append(z3.Implies(z3.And(*br), f) if br else f)
        return out

    def formulas(self):
        return [f for _, f in self.entries]


MAX_PATHS = 400


def explore(thunk, before=None):
    """Run thunk under every feasible decision sequence; ctx.pc is restored afterwards."""
    base = len(ctx.pc)
    stack = [[]]
    out = []
    while stack:
        if len(out) > MAX_PATHS:
            raise Unsupported("too many paths")
        prefix = stack.pop()
        if not ctx.scopes:
            ctx.defs, ctx.shared, ctx.chosen = [], [], []
        ctx.scopes.append(dict(prefix=prefix, pos=0, stack=stack))
        ctx.stats["paths"] += 1
        ctx.tick += 1
        flag = dict(tick=ctx.tick, mut=False)
        ctx.mut_flags.append(flag)
        jmark = len(ctx.journal)
        n0 = len(out)
        try:
            if before:
                before()
            v = thunk()
            out.append(Path(ctx.pc[base:], "ret", v))
        except SymRaise as r:
            out.append(Path(ctx.pc[base:], "raise", r))
        except PathEnd:
            ctx.stats["prunes"] += 1
        finally:
            if len(out) > n0:
                out[-1].mutated = flag["mut"]
            ctx.mut_flags.pop()
            while len(ctx.journal) > jmark:
                ctx.journal.pop()()
            ctx.scopes.pop()
            del ctx.pc[base:]
    return out


# ---------------------------------------------------------------- structural operations on values
def subst(v, pairs):
    """Substitute z3 variables inside a structured value."""
    if not pairs:
        return v
    if isinstance(v, (Num, SBool)) or hasattr(v, "_subst"):
        return v._subst(pairs)
    if isinstance(v, (z3.ExprRef,)):
        return z3.substitute(v, *pairs)
    if isinstance(v, dict):
        return {k: subst(x, pairs) for k, x in v.items()}
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, np.ndarray) and v.dtype == object:
        out = np.empty(v.shape, dtype=object)
        for ix in np.ndindex(v.shape):
            out[ix] = subst(v[ix], pairs)
        return out
    return v


def same_concrete(a, b):
    try:
        return a is b or (type(a) == type(b) and bool(a == b))
    except Exception:
        return False


def _addends(e):
    if z3.is_add(e):
        return [t for ch in e.children() for t in _addends(ch)]
    if z3.is_int_value(e) and e.as_long() == 0:
        return []
    return [e]


def mentions(e, c):
    seen, st = set(), [e]
    while st:
        t = st.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        if t.eq(c):
            return True
        st.extend(t.children())
    return False


MISSING = [None]    # set by vf.tables: merges a missing value (NaN, NaT) with a present one


def ite(c, a, b):
    """Merge two values under condition c (z3 Bool)."""
    if a is b:
        return a
    if MISSING[0] is not None and (isinstance(a, float) and a != a or isinstance(b, float) and b != b):
        return MISSING[0](c, a, b)
    c_ = z3.simplify(c)
    if z3.is_true(c_):
        return a
    if z3.is_false(c_):
        return b
    if isinstance(a, (bool, np.bool_, SBool)) and isinstance(b, (bool, np.bool_, SBool)):
        return mkb(z3.If(c, zb(a), zb(b)))
    if (is_num(a) or isinstance(a, Num)) and (is_num(b) or isinstance(b, Num)):
        x, y = both(a, b)
        if z3.eq(x, y):
            return a
        if x.is_int():
            # factor out common addends: if c then s+u else s+v = s + (if c then u else v)
            xs, ys = _addends(x), _addends(y)
            com, yr = [], list(ys)
            xr = []
            for t in xs:
                k = next((k for k, u in enumerate(yr) if u.eq(t)), None)
                if k is None:
                    xr.append(t)
                else:
                    com.append(t)
                    del yr[k]
            if com:
                z = z3.IntVal(0)
                add = lambda l: z if not l else (l[0] if len(l) == 1 else z3.Sum(*l))
                return Num(z3.Sum(*(com + [z3.If(c, add(xr), add(yr))])))
        return Num(z3.If(c, x, y))
    if hasattr(a, "_ite"):
        r = a._ite(c, b, False)
        if r is not NotImplemented:
            return r
    if hasattr(b, "_ite"):
        r = b._ite(c, a, True)
        if r is not NotImplemented:
            return r
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        return {k: ite(c, a[k], b[k]) for k in a}
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [ite(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape:
        out = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(a.shape):
            out[ix] = ite(c, a[ix], b[ix])
        return out
    if same_concrete(a, b):
        return a
    if isinstance(a, Sym) or isinstance(b, Sym) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return Case([(c, a), (z3.Not(c), b)])
    raise Unsupported(f"cannot merge {type(a)} / {type(b)}")


class Case(Sym):
    """Value known only by cases; attribute/use forks."""

    def __init__(self, alts):
        flat = []
        for c, v in alts:
            if isinstance(v, Case):
                flat += [(z3.And(c, c2), v2) for c2, v2 in v.alts]
            else:
                flat.append((c, v))
        self.alts = flat

    def resolve(self):
        for c, v in self.alts[:-1]:
            if decide(c):
                return v
        assume(self.alts[-1][0])
        return self.alts[-1][1]

    def _subst(self, pairs):
        return Case([(z3.substitute(c, *pairs), subst(v, pairs)) for c, v in self.alts])


def merge_paths(paths):
    """Fold return values of several paths into one value by their conditions."""
    v = paths[-1].value
    for p in reversed(paths[:-1]):
        v = ite(p.cond, p.value, v)
    return v


def equal(a, b):
    """z3 Bool: structural equality of two values."""
    if isinstance(a, Case):
        return z3.And(*[z3.Implies(c, equal(v, b)) for c, v in a.alts])
    if isinstance(b, Case):
        return z3.And(*[z3.Implies(c, equal(a, v)) for c, v in b.alts])
    if isinstance(a, (bool, np.bool_, SBool)) and isinstance(b, (bool, np.bool_, SBool)):
        return zb(a) == zb(b)
    if (is_num(a) or isinstance(a, Num)) and (is_num(b) or isinstance(b, Num)):
        x, y = both(a, b)
        return x == y
    if a is None or b is None:
        return z3.BoolVal(a is b)
    if hasattr(a, "_equal"):
        return a._equal(b)
    if hasattr(b, "_equal"):
        return b._equal(a)
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return z3.BoolVal(False)
        return z3.And(*[equal(a[k], b[k]) for k in a]) if a else z3.BoolVal(True)
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And(*[equal(x, y) for x, y in zip(a, b)]) if len(a) else z3.BoolVal(True)
    try:
        r = a == b
        if isinstance(r, SBool):
            return r.e
        return z3.BoolVal(bool(r))
    except Unsupported:
        raise
    except Exception:
        return z3.BoolVal(False)


# ---------------------------------------------------------------- proving
class Result:
    def __init__(self, status, model=None, backend="", secs=0.0, note=""):
        self.status, self.model, self.backend, self.secs, self.note = status, model, backend, secs, note


PROVE_MS = int(os.environ.get("VF_PROVE_MS", "8000"))


def _cli(solver, smt, secs):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(smt)
        p = f.name
    try:
        if solver == "cvc5":
            cmd = ["cvc5", "--tlimit=%d" % int(secs * 1000), "--nl-ext-tplanes", p]
        else:
            cmd = ["z3-new", "-T:%d" % int(secs), p]
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 5)
        o = r.stdout.strip().splitlines()
        return o[0].strip() if o else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(p)


def linearised(fs):
    """Replace every nonlinear subterm by a constant (the same one for the same term): unsatisfiability carries over."""
    table, memo, n = {}, {}, [0]

    def isnum(t):
        return const_of(t) is not None

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
            r = t
        else:
            ch = [go(c) for c in t.children()]
            kd = t.decl().kind()
            r = t.decl()(*ch) if kd not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT) else _rebuild(kd, ch)
            nl = kd == z3.Z3_OP_MUL and sum(not isnum(c) for c in ch) > 1 or kd in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM) and not isnum(ch[1]) or kd == z3.Z3_OP_POWER
            if nl:
                key = r.sexpr()
                if key not in table:
                    n[0] += 1
                    table[key] = z3.Const(f"nl!{n[0]}", r.sort())
                r = table[key]
        memo[k] = (t, r)
        return r
    return [go(z3.simplify(f)) for f in fs]


def congruent(fs):
    """products and quotients of two unknowns as uninterpreted functions: what follows without their laws (sound for proving only)."""
    memo, ufs, hit = {}, {}, [0]

    def uf(nm, *ss):
        k = (nm,) + tuple(x.name() for x in ss)
        if k not in ufs:
            ufs[k] = z3.Function("uf!" + "!".join(k), *ss)
        return ufs[k]

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
            r = t
        else:
            ch = [go(c) for c in t.children()]
            kd = t.decl().kind()
            if kd == z3.Z3_OP_MUL and sum(const_of(c) is None for c in ch) > 1:
                num, rest = [c for c in ch if const_of(c) is not None], [c for c in ch if const_of(c) is None]
                rest.sort(key=lambda c: c.get_id())
                r = rest[0]
                for c in rest[1:]:
                    r = uf("mul", r.sort(), c.sort(), t.sort())(r, c)
                for c in num:
                    r = c * r
                hit[0] += 1
            elif kd in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM) and const_of(ch[1]) is None or kd == z3.Z3_OP_POWER:
                r = uf(t.decl().name(), ch[0].sort(), ch[1].sort(), t.sort())(*ch)
                hit[0] += 1
            else:
                r = t.decl()(*ch) if kd not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT) else _rebuild(kd, ch)
        memo[k] = (t, r)
        return r
    out = [go(f) for f in fs]
    return out if hit[0] else None


def _rebuild(kd, ch):
    if kd == z3.Z3_OP_AND:
        return z3.And(*ch)
    if kd == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if kd == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    r = ch[0]
    for c in ch[1:]:
        r = r + c if kd == z3.Z3_OP_ADD else r * c
    return r


def prove(goal, hyps, ms=None, extra_axioms=True, cli=True, hints=()):
    """Is goal a consequence of hyps?  'proved' / 'refuted' (with model) / 'unknown'."""
    t0 = time.time()
    goal = zb(goal)
    g = z3.simplify(goal)
    if z3.is_true(g):
        return Result("proved", backend="simplifier", secs=time.time() - t0)
    # arithmetic normal form
    try:
        g2 = z3.simplify(goal, som=True, arith_lhs=True)
        if z3.is_true(g2):
            return Result("proved", backend="simplifier", secs=time.time() - t0)
    except z3.Z3Exception:
        pass
    fs = [zb(h) for h in hyps] + [zb(h) for h in hints]
    neg = z3.Not(goal)
    ms = ms or PROVE_MS
    if hints:
        # ground tier: quantifier-free hypotheses and the given instances only
        try:
            s = z3.Solver()
            s.set("timeout", 3000)
            for f in linearised([f for f in fs if not has_quant(f)] + [neg]):
                s.add(f)
            if s.check() == z3.unsat:
                return Result("proved", backend="z3-" + z3.get_version_string(), secs=time.time() - t0)
        except z3.Z3Exception:
            pass
        s = z3.Solver()
        s.set("timeout", int(ms))
        for f in fs:
            if not has_quant(f):
                s.add(f)
        s.add(neg)
        if s.check() == z3.unsat:
            return Result("proved", backend="z3-" + z3.get_version_string(), secs=time.time() - t0)
    try:
        lin = congruent([f for f in fs if not has_quant(f)] + [neg]) if not has_quant(neg) else None
    except z3.Z3Exception:
        lin = None
    if lin is not None:
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(*lin)
        if s.check() == z3.unsat:
            return Result("proved", backend="z3-" + z3.get_version_string(), secs=time.time() - t0)
    apps = collect_apps(fs + [neg])
    need = extra_axioms and (apps or mentions(neg, PI) or mentions(neg, IPI))
    ax = axioms(fs + [neg]) if need else []
    ax0 = axioms(fs + [neg], pairwise=False) if need else []
    # 1: without axioms (pure congruence/linear)
    model = None
    status = "unknown"
    attempts = [([], min(ms, 2000))] if ax else []
    if len(ax0) < len(ax):
        attempts.append((ax0, ms / 2))
    attempts.append((ax, ms))
    for axs, lim in attempts:
        s = z3.Solver()
        s.set("timeout", int(lim))
        for f in fs:
            s.add(f)
        for a in axs:
            s.add(a)
        s.add(neg)
        r = s.check()
        if r == z3.unsat:
            return Result("proved", backend="z3-" + z3.get_version_string(), secs=time.time() - t0)
        if r == z3.sat and axs is ax:
            return Result("refuted", model=s.model(), backend="z3-" + z3.get_version_string(), secs=time.time() - t0)
        if r == z3.sat:
            model = s.model()
    if cli:
        smt = "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n"
        r = _cli("cvc5", smt, max(5, ms / 1000))
        if r == "unsat":
            return Result("proved", backend="cvc5", secs=time.time() - t0)
        s2 = z3.Tactic("qfnra-nlsat").solver() if False else None
    return Result("unknown", model=model, backend="z3+cvc5", secs=time.time() - t0)


def model_value(model, e):
    """Python Fraction/bool value of an expr in a model (completing)."""
    v = model.eval(e, model_completion=True)
    c = const_of(v)
    if c is not None:
        return c
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def symbols_in(fs):
    """name -> declaration of every uninterpreted symbol in fs."""
    seen, out, stack = set(), {}, list(fs)
    while stack:
        t = stack.pop()
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[t.decl().name()] = t.decl()
            stack.extend(t.children())
    return out


def choose(cond, a, b):
    """z3.If(cond, a, b), resolved where the path condition already decides it (keeps terms small)."""
    c = z3.simplify(zb(cond))
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    # one answer per condition: later calls under the same or more hypotheses agree with the first
    now = {f.get_id() for f in ctx.formulas()}
    for c0, hyp, ans in ctx.chosen:
        if c0.eq(c) and (ans is None or all(h.get_id() in now for h in hyp)):
            return z3.If(c, a, b) if ans is None else a if ans else b
    ans = True if not feasible(z3.Not(c)) else False if not feasible(c) else None
    ctx.chosen.append((c, list(ctx.formulas()), ans))
    return z3.If(c, a, b) if ans is None else a if ans else b


_hq = {}


def has_quant(f):
    k = f.get_id()
    r = _hq.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    seen, st, q = set(), [f], False
    while st:
        t = st.pop()
        if z3.is_quantifier(t):
            q = True
            break
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        st.extend(t.children())
    if len(_hq) > 20000:
        _hq.clear()
    _hq[k] = (f, q)
    return q


def audit(hyps):
    """Names of generated indices that occur free in some obligation's hypotheses and are also bound in them: a fact
    about one generic element that was never generalised over it. None may remain."""
    info, bad = {}, set()

    def scan(f):
        free, bound, seen, st = set(), set(), set(), [f]
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                bound.update(e.var_name(k) for k in range(e.num_vars()))
                st.append(e.body())
            elif z3.is_app(e):
                if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    free.add(e.decl().name())
                st.extend(e.children())
        return {n for n in free if "!" in n}, {n for n in bound if "!" in n}, f
    for pc in hyps:
        free, bound = set(), set()
        for f in pc:
            r = info.get(f.get_id())
            if r is None:
                r = info[f.get_id()] = scan(f)
            free |= r[0]
            bound |= r[1]
        bad |= free & bound
    return bad
