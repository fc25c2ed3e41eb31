"""Symbolic-length sequences and vectors, comprehensions and for-loop summaries."""
import ast, operator
from fractions import Fraction
import numpy as np
import z3
from . import core
from .core import (Sym, Num, SBool, Case, Unsupported, PathEnd, SymRaise, ctx, zb, zn, zr, mkb, mkn, decide, explore,
                   ite, subst, assume, is_num, equal, fresh)
from .interp import is_sym, exact, native, Env, CMP, BIN, BreakX, ContinueX, ReturnX, lambda_model

SKIP = object()


def zi(x):
    if isinstance(x, Num):
        if not x.e.is_int():
            raise Unsupported("non-integer index")
        return x.e
    if isinstance(x, z3.ArithRef):
        return x
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, Fraction) and x.denominator == 1:
        return z3.IntVal(int(x))
    raise Unsupported("index type")


def gvar(name="i"):
    ctx.fresh_n += 1
    return z3.Int(f"{name}!{ctx.fresh_n}")


class Seq(Sym):
    """n elements, element j given by get(j). vec: numpy-array semantics."""

    def __init__(self, n, f, vec=False):
        self.n = z3.simplify(zi(n)) if not isinstance(n, int) else z3.IntVal(n)
        self.f = f
        self.vec = vec

    def concrete_len(self):
        c = core.const_of(self.n)
        return c

    def get(self, j):
        return self.f(zi(j))

    def length(self):
        return mkn(self.n)

    def as_vec(self):
        return Seq(self.n, self.get, True)

    @property
    def iloc(self):
        if not self.vec:
            raise Unsupported("iloc of a list")
        return Seq(self.n, self.get, True)     # a column by position

    def _truth(self):
        if self.vec:
            raise Unsupported("truth of vector")
        return self.n > 0

    def _subst(self, pairs):
        f = self.get
        return Seq(z3.substitute(self.n, *pairs), lambda j: _late(f, j, pairs), self.vec)

    def _ite(self, c, o, rev):
        if isinstance(o, list):
            o = of_list(o)
        if isinstance(o, Seq):
            a, b = (o, self) if rev else (self, o)
            return Seq(z3.If(c, a.n, b.n), lambda j: ite(c, a.get(j), b.get(j)), self.vec)
        return NotImplemented

    def _equal(self, o):
        if isinstance(o, (list, tuple, np.ndarray)):
            o = of_list(list(o))
        if not isinstance(o, Seq):
            return z3.BoolVal(False)
        j = gvar("q")
        return z3.And(self.n == o.n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), equal(self.get(j), o.get(j)))))

    def sort(self, *a, **k):
        raise Unsupported("sort of symbolic list")

    # indexing
    def _getitem(self, interp, ix):
        if isinstance(ix, tuple) and len(ix) == 1:
            ix = ix[0]
        if isinstance(ix, slice):
            return self.slice(ix)
        if isinstance(ix, Seq) or isinstance(ix, (list, np.ndarray)):
            return take(self, ix)
        if isinstance(ix, (int, np.integer, Num, Fraction)):
            i = zi(ix)
            ci = core.const_of(z3.simplify(i))
            if ci is not None and ci >= 0:
                if not decide(self.n > ci):
                    raise SymRaise(IndexError("index out of range"))
                return self.get(i)
            if ci is not None:
                if not decide(self.n >= -ci):
                    raise SymRaise(IndexError("index out of range"))
                return self.get(z3.simplify(self.n + i))
            if not decide(z3.And(i < self.n, i >= -self.n)):
                raise SymRaise(IndexError("index out of range"))
            if decide(i >= 0):
                return self.get(i)
            return self.get(self.n + i)
        raise Unsupported(f"sequence index {type(ix)}")

    def slice(self, s):
        if s.step not in (None, 1):
            if isinstance(s.step, int) and s.step > 1 and s.stop is None:
                st = z3.IntVal(0) if s.start is None else zi(s.start)
                k = s.step
                n = z3.If(self.n > st, (self.n - st + (k - 1)) / k, z3.IntVal(0))
                return Seq(n, lambda j: self.get(st + k * j), self.vec)
            raise Unsupported("slice step")
        def bound(x, default):
            if x is None:
                return default
            e = zi(x)
            c = core.const_of(z3.simplify(e))
            if c is not None and c >= 0:
                return core.choose(e <= self.n, e, self.n)
            if c is not None:
                return core.choose(self.n + e >= 0, z3.simplify(self.n + e), z3.IntVal(0))
            if not decide(z3.And(e >= 0, e <= self.n)):
                raise Unsupported("slice bound outside sequence")
            return e
        lo, hi = bound(s.start, z3.IntVal(0)), bound(s.stop, self.n)
        n = z3.simplify(core.choose(hi >= lo, hi - lo, z3.IntVal(0)))
        return Seq(n, lambda j: self.get(z3.simplify(lo + j)), self.vec)

    def _setitem(self, interp, ix, v):
        raise Unsupported("store into symbolic sequence")

    def _contains(self, x):
        j = gvar("m")
        return mkb(z3.Exists([j], z3.And(j >= 0, j < self.n, equal(self.get(j), x))))

    # vector arithmetic
    def _vop(self, o, f):
        if isinstance(o, (list, tuple, np.ndarray)) and not (isinstance(o, np.ndarray) and o.ndim == 0):
            o = of_list(list(o))
        if isinstance(o, Seq):
            if isinstance(o, MatLike) or isinstance(self, MatLike):
                return NotImplemented
            if core.const_of(o.n) == 1 and core.const_of(self.n) != 1:
                v = o.get(z3.IntVal(0))
                return Seq(self.n, lambda j: f(self.get(j), v), True)
            if not z3.eq(z3.simplify(self.n), z3.simplify(o.n)):
                core.oblig("vector lengths agree", self.n == o.n)
            return Seq(self.n, lambda j: f(self.get(j), o.get(j)), True)
        return Seq(self.n, lambda j: f(self.get(j), o), True)

    def __add__(self, o):
        if not self.vec and not (isinstance(o, Seq) and o.vec):
            return concat(None, self, o)
        return self._vop(o, operator.add)

    def __radd__(self, o):
        if not self.vec:
            return concat(None, o, self)
        return self._vop(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._vop(o, operator.sub)

    def __rsub__(self, o):
        return self._vop(o, lambda a, b: b - a)

    def __mul__(self, o):
        if not self.vec:
            raise Unsupported("repeat of symbolic list")
        return self._vop(o, operator.mul)

    __rmul__ = lambda self, o: self._vop(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._vop(o, _tdiv)

    def __rtruediv__(self, o):
        return self._vop(o, lambda a, b: _tdiv(b, a))

    def __mod__(self, o):
        return self._vop(o, lambda a, b: a % b if type(a).__name__ == "SDelta" or type(b).__name__ == "SDelta" else core.mod(a, b))

    def __floordiv__(self, o):
        return self._vop(o, lambda a, b: a // b)

    def __pow__(self, o):
        return self._vop(o, core.power)

    def __neg__(self):
        return Seq(self.n, lambda j: -self.get(j), True)

    def __abs__(self):
        return Seq(self.n, lambda j: abs(self.get(j)), True)

    def __lt__(self, o):
        return self._vop(o, operator.lt)

    def __le__(self, o):
        return self._vop(o, operator.le)

    def __gt__(self, o):
        return self._vop(o, operator.gt)

    def __ge__(self, o):
        return self._vop(o, operator.ge)

    def __eq__(self, o):
        if not self.vec:
            return mkb(self._equal(o))
        return self._vop(o, lambda a, b: a == b)

    def __ne__(self, o):
        if not self.vec:
            return mkb(z3.Not(self._equal(o)))
        return self._vop(o, lambda a, b: a != b)

    def __and__(self, o):
        return self._vop(o, lambda a, b: mkb(z3.And(zb(a), zb(b))))

    def __or__(self, o):
        return self._vop(o, lambda a, b: mkb(z3.Or(zb(a), zb(b))))

    def __invert__(self):
        return Seq(self.n, lambda j: mkb(z3.Not(zb(self.get(j)))), True)

    __hash__ = object.__hash__

    # ndarray-ish
    @property
    def size(self):
        return self.length()

    @property
    def shape(self):
        return (self.length(),)

    @property
    def ndim(self):
        return 1

    @property
    def T(self):
        return self

    def copy(self):
        return Seq(self.n, self.get, self.vec)

    def tolist(self):
        return Seq(self.n, self.get, False)

    def any(self):
        return any_(self)

    def all(self):
        return all_(self)

    def sum(self):
        return sum_(self)

    def mean(self):
        return sum_(self) / self.length()

    def max(self):
        return extremum(self, True)

    def min(self):
        return extremum(self, False)

    def astype(self, *a, **k):
        return self


class MatLike:
    pass


def _late(f, j, pairs):
    """element function under substitution: evaluate at a placeholder, substitute, then put j."""
    p = gvar("p")
    v = f(p)
    return subst(subst(v, pairs), [(p, j)])


def _tdiv(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return Fraction(a) / Fraction(b)
    return a / b


# A filter or a flattening built twice from the same terms is the same function: its index functions are
# shared.
CANON = [z3.Int("canon!0")]


def share(key, val):
    ctx.shared.append((key, val))


def shared(key):
    for k, val in ctx.shared:
        if len(k) == len(key) and k[0] == key[0] and all(a.eq(b) for a, b in zip(k[1:], key[1:])):
            return val
    return None


class FSeq(Seq):
    """Filtered map over 0..base_n: elements value(i) for i with cond(i), in order."""

    def __init__(self, base_n, cond, value, vec=False):
        self.base_n, self.cond, self.value = base_n, cond, value
        self._m = None
        self.vec = vec
        self.gv = list(ctx.gvars)

    def _ensure(self):
        if self._m is not None:
            return
        if not all(any(g.eq(h) for h in ctx.gvars) for g in self.gv):
            raise Unsupported("filter over a generic index evaluated outside its context")
        key = None
        if not self.gv:
            key = ("filter", z3.simplify(zi(self.base_n)), z3.simplify(zb(self.cond(CANON[0]))))
            old = shared(key)
            if old is not None:
                self._m, self.src, self.rank = old
                return
        ctx.fresh_n += 1
        k = ctx.fresh_n
        gs = [z3.IntSort()] * len(self.gv)
        I = z3.IntSort()
        if self.gv:
            self._m = z3.Function(f"flen!{k}", *gs, I)(*self.gv)
            S, R = z3.Function(f"fsrc!{k}", *gs, I, I), z3.Function(f"frank!{k}", *gs, I, I)
            self.src = lambda j: S(*self.gv, j)
            self.rank = lambda j: R(*self.gv, j)
        else:
            self._m = z3.Int(f"flen!{k}")
            S, R = z3.Function(f"fsrc!{k}", I, I), z3.Function(f"frank!{k}", I, I)
            self.src, self.rank = (lambda j: S(j)), (lambda j: R(j))
        m, n = self._m, self.base_n
        a, b, i = gvar("a"), gvar("b"), gvar("c")
        put = assume if self.gv else core.define
        put(z3.And(m >= 0, z3.Implies(n >= 0, m <= n)))
        put(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < m), z3.And(self.src(a) >= 0, self.src(a) < n,
               zb(self.cond(self.src(a))), self.rank(self.src(a)) == a)), patterns=[self.src(a)]))
        put(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < m), self.src(a) < self.src(b)),
                         patterns=[z3.MultiPattern(self.src(a), self.src(b))]))
        put(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, zb(self.cond(i))),
               z3.And(self.rank(i) >= 0, self.rank(i) < m, self.src(self.rank(i)) == i))))
        if key is not None:
            share(key, (self._m, self.src, self.rank))

    rest = None

    def _rest(self):
        """constants the index functions depend on other than through their arguments."""
        if self.rest is None:
            self.rest = (_consts(zi(self.base_n)) | _consts(zb(self.cond(CANON[0])))) - {g.decl().name() for g in self.gv}
        return self.rest

    @property
    def n(self):
        self._ensure()
        return self._m

    @property
    def f(self):
        return self.get

    def get(self, j):
        self._ensure()
        return self.value(self.src(zi(j)))

    def concrete_len(self):
        return None

    def as_vec(self):
        return FSeq2(self, True)

    def copy(self):
        return FSeq2(self, self.vec)

    def tolist(self):
        return FSeq2(self, False)

    def map(self, g, vec=None):
        r = FSeq2(self, self.vec if vec is None else vec)
        r.value = lambda i: g(self.value(i))
        return r

    def _subst(self, pairs):
        r = FSeq.__new__(FSeq)
        c, v = self.cond, self.value
        r.base_n = z3.substitute(self.base_n, *pairs)
        r.cond = lambda i: _late(c, i, pairs)
        r.value = lambda i: _late(v, i, pairs)
        r.vec, r._m, r.gv = self.vec, None, list(ctx.gvars)
        if self._m is not None:
            rest = self._rest()
            if not any(x in rest for a, _ in pairs for x in _consts(a)):
                # the index functions take the generic indices as arguments: this is their instance
                S, R = self.src, self.rank
                r._m = z3.substitute(self._m, *pairs)
                r.src = lambda j: _late(S, j, pairs)
                r.rank = lambda j: _late(R, j, pairs)
                r.gv, r.rest = [], rest
        return r


def _consts(e):
    """names of the uninterpreted constants of a term."""
    out, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    return out


def FSeq2(o, vec):
    """Same filter (sharing src/rank) with another element view."""
    o._ensure()
    r = FSeq.__new__(FSeq)
    r.base_n, r.cond, r.value, r.vec, r.gv = o.base_n, o.cond, o.value, vec, o.gv
    r._m, r.src, r.rank, r.rest = o._m, o.src, o.rank, o.rest
    return r


def _mentions(e, v):
    st = [e]
    while st:
        x = st.pop()
        if z3.eq(x, v):
            return True
        st.extend(x.children())
    return False


class FlatSeq(Seq):
    """Concatenation over generic outer index i (filtered) of inner sequences."""

    def __init__(self, outer_n, inner, vec=False):
        self.outer_n, self.inner, self.vec = outer_n, inner, vec
        self._m = self.gen = None
        self.gv = list(ctx.gvars)

    def __getattr__(self, name):
        if name in ("o", "j", "r") and self.__dict__.get("_m") is None and "outer_n" in self.__dict__:
            self._ensure()
            return self.__dict__[name]
        raise AttributeError(name)

    def _generic(self):
        """The inner sequence at a generic outer index, built once: what it depends on is a function of the index."""
        if self.gen is not None:
            return
        if not all(any(g.eq(h) for h in ctx.gvars) for g in self.gv):
            raise Unsupported("flattening over a generic index evaluated outside its context")
        i0, raw = gvar("o"), self.inner
        base = len(ctx.pc)
        ctx.gvars.append(i0)
        try:
            G = raw(i0)
            ln = z3.simplify(zi(G.n))
            new = ctx.pc[base:]
        finally:
            ctx.gvars.pop()
            del ctx.pc[base:]
        if any(k != "fact" for k, _ in new):
            raise Unsupported("branching in the length of an inner sequence")
        for _, f in new:
            (assume if self.gv else core.define)(z3.ForAll([i0], z3.Implies(z3.And(i0 >= 0, i0 < zi(self.outer_n)), f)))
        self.gen = (i0, ln)
        self.inner = lambda x: subst(G, [(i0, zi(x))])

    rest = None

    def _rest(self):
        """constants the index functions depend on other than through their arguments."""
        if self.rest is None:
            i0, ln = self.gen
            self.rest = (_consts(zi(self.outer_n)) | _consts(ln)) - {g.decl().name() for g in self.gv + [i0]}
        return self.rest

    def uniform(self):
        """common length of the inner sequences, where it does not depend on the outer index"""
        self._generic()
        i0, ln = self.gen
        return None if _mentions(ln, i0) else ln

    def _ensure(self):
        if self._m is not None:
            return
        self._generic()
        i0, ln = self.gen
        inn = lambda x: z3.substitute(ln, (i0, x))
        key = ("flat", z3.simplify(zi(self.outer_n)), inn(CANON[0]))
        old = None if self.gv else shared(key)
        if old is not None:
            self._m, self.o, self.j, self.r = old
            return
        ctx.fresh_n += 1
        k = ctx.fresh_n
        I = z3.IntSort()
        gv = self.gv
        gs = [I] * len(gv)
        self._m = z3.Function(f"xlen!{k}", *gs, I)(*gv) if gv else z3.Int(f"xlen!{k}")
        fO, fJ, fR = z3.Function(f"xo!{k}", *gs, I, I), z3.Function(f"xi!{k}", *gs, I, I), z3.Function(f"xr!{k}", *gs, I, I, I)
        O, J, R = (lambda x: fO(*gv, x)), (lambda x: fJ(*gv, x)), (lambda x, y: fR(*gv, x, y))
        put = assume if gv else core.define
        self.o, self.j, self.r = O, J, R
        a, b, i, q = gvar("a"), gvar("b"), gvar("c"), gvar("d")
        m = self._m
        put(m >= 0)
        put(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < m), z3.And(O(a) >= 0, O(a) < self.outer_n, J(a) >= 0,
               J(a) < inn(O(a)), R(O(a), J(a)) == a)), patterns=[O(a)]))
        put(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < m), z3.Or(O(a) < O(b), z3.And(O(a) == O(b), J(a) < J(b)))),
                         patterns=[z3.MultiPattern(O(a), O(b))]))
        put(z3.ForAll([i, q], z3.Implies(z3.And(i >= 0, i < self.outer_n, q >= 0, q < inn(i)),
               z3.And(R(i, q) >= 0, R(i, q) < m, O(R(i, q)) == i, J(R(i, q)) == q)), patterns=[R(i, q)]))
        w = self.uniform()
        if w is not None:
            # every inner sequence has the same length: row-major numbering
            ow = zi(self.outer_n)
            put(z3.Implies(z3.And(ow >= 0, w >= 0), m == ow * w))
            put(z3.ForAll([i, q], z3.Implies(z3.And(i >= 0, i < self.outer_n, q >= 0, q < w), R(i, q) == i * w + q), patterns=[R(i, q)]))
        if not gv:
            share(key, (m, O, J, R))

    @property
    def n(self):
        self._ensure()
        return self._m

    @property
    def f(self):
        return self.get

    def get(self, k):
        self._ensure()
        k = zi(k)
        return self.inner(self.o(k)).get(self.j(k))

    def concrete_len(self):
        return None

    def _view(self, vec):
        r = FlatSeq(self.outer_n, self.inner, vec)
        r.gen, r.gv, r.rest = self.gen, self.gv, self.rest
        if self._m is not None:
            r._m, r.o, r.j, r.r = self._m, self.o, self.j, self.r
        return r

    def _subst(self, pairs):
        self._ensure()
        rest = self._rest()
        if any(x in rest for a, _ in pairs for x in _consts(a)):
            raise Unsupported("substitution in a nested flattening")
        O, J, R, inner = self.o, self.j, self.r, self.inner
        i0, ln = self.gen
        r = FlatSeq(z3.substitute(zi(self.outer_n), *pairs), lambda x: _late(inner, x, pairs), self.vec)
        r._m = z3.substitute(self._m, *pairs)
        r.o, r.j = (lambda x: _late(O, x, pairs)), (lambda x: _late(J, x, pairs))
        p, q = gvar("p"), gvar("p")
        r2 = z3.substitute(R(p, q), *pairs)
        r.r = lambda x, y: z3.substitute(r2, (p, zi(x)), (q, zi(y)))
        r.gen = (i0, z3.substitute(ln, *pairs))
        r.gv, r.rest = [], rest
        return r

    def as_vec(self):
        return self._view(True)

    def copy(self):
        return self._view(self.vec)

    def tolist(self):
        return self._view(False)


class CatSeq(Seq):
    """Concatenation of parts (each list or Seq)."""

    def __init__(self, parts, vec=False):
        self.parts = parts
        n = z3.IntVal(0)
        for p in parts:
            n = n + (z3.IntVal(len(p)) if isinstance(p, list) else p.n)
        super().__init__(z3.simplify(n), self._g, vec)

    def _g(self, j):
        off = z3.IntVal(0)
        out = None
        alts = []
        for p in self.parts:
            ln = z3.IntVal(len(p)) if isinstance(p, list) else p.n
            if isinstance(p, list):
                for k, x in enumerate(p):
                    alts.append((j == off + k, lambda x=x: x))
            else:
                o = off
                alts.append((z3.And(j >= off, j < off + ln), lambda p=p, o=o: p.get(z3.simplify(j - o))))
            off = z3.simplify(off + ln)
        if not alts:
            raise SymRaise(IndexError())
        # constant resolution
        for c, g in alts:
            if z3.is_true(z3.simplify(c)):
                return g()
        v = alts[-1][1]()
        for c, g in reversed(alts[:-1]):
            cs = z3.simplify(c)
            if z3.is_false(cs):
                continue
            v = ite(cs, g(), v)
        return v


def of_list(xs, vec=False):
    xs = list(xs)
    def f(j):
        c = core.const_of(z3.simplify(j))
        if c is not None:
            if 0 <= c < len(xs):
                return xs[c]
            raise Unsupported("constant index out of range")
        if not xs:
            raise Unsupported("element of empty list")
        v = xs[-1]
        for k in range(len(xs) - 2, -1, -1):
            v = ite(j == k, xs[k], v)
        return v
    return Seq(len(xs), f, vec)


def concat(interp, a, b):
    for v in (a, b):
        if isinstance(v, Case):
            raise Unsupported("concat of case value")
    pa = a.parts if isinstance(a, CatSeq) else [a]
    pb = b.parts if isinstance(b, CatSeq) else [b]
    parts = []
    for p in pa + pb:
        if isinstance(p, tuple):
            p = list(p)
        if isinstance(p, Seq) and type(p) is Seq and p.concrete_len() is not None:
            p = [p.get(i) for i in range(p.concrete_len())]
        if not isinstance(p, (list, Seq)):
            raise Unsupported(f"concat {type(p)}")
        if isinstance(p, list) and parts and isinstance(parts[-1], list):
            parts[-1] = parts[-1] + p
        elif isinstance(p, list) and not p:
            continue
        else:
            parts.append(p)
    if not parts:
        return ctx.born([])
    if len(parts) == 1:
        return parts[0]
    return CatSeq(parts)


def repeat(lst, n):
    if len(lst) == 1:
        return Seq(z3.If(n.e > 0, n.e, z3.IntVal(0)), lambda j: lst[0])
    raise Unsupported("list repeat")


def arr_sym_op(op, a, b):
    f = BIN.get(op) or CMP.get(op)
    if isinstance(a, np.ndarray):
        a = a.item() if a.ndim == 0 else of_list(list(a), True)
    if isinstance(b, np.ndarray):
        b = b.item() if b.ndim == 0 else of_list(list(b), True)
    return f(a, b)


def index_concrete(interp, o, ix):
    if isinstance(o, (list, np.ndarray)) and isinstance(ix, Seq):
        return take(of_list(list(o), isinstance(o, np.ndarray)), ix)
    if isinstance(o, np.ndarray) and isinstance(ix, Num):
        return interp.getitem(list(o), ix)
    if isinstance(o, np.ndarray) and o.dtype == object and isinstance(ix, np.ndarray):
        raise Unsupported("symbolic mask on concrete array")
    raise Unsupported(f"symbolic index on {type(o)}")


def elem_kind(s):
    """'bool' or 'int' by probing a generic element."""
    p = gvar("k")
    v = s.get(p)
    return "bool" if isinstance(v, (bool, np.bool_, SBool)) else "int"


def take(s, ix):
    if isinstance(ix, (list, np.ndarray)):
        ix = of_list(list(ix), True)
    if core.const_of(ix.n) != 0 and elem_kind(ix) == "bool":
        if isinstance(s, FSeq):
            # filter of a filter over the same base
            raw = s
            return FSeq(raw.n, lambda i: ix.get(i), lambda i: raw.get(i), s.vec)
        r = FSeq(s.n, lambda i: ix.get(i), lambda i: s.get(i), s.vec)
        r.base_seq = s
        return r
    if isinstance(ix, FSeq):
        return ix.map(lambda j: s.get(zi(j)), s.vec)
    return Seq(ix.n, lambda j: s.get(zi(ix.get(j))), s.vec)


def any_(s):
    s2 = s
    if isinstance(s, FSeq):
        i = gvar("e")
        return mkb(z3.Exists([i], z3.And(i >= 0, i < s.base_n, zb(s.cond(i)), zb(s.value(i)))))
    c = s.concrete_len()
    if c is not None:
        return mkb(z3.simplify(z3.Or(*[zb(s.get(k)) for k in range(c)]))) if c else False
    i = gvar("e")
    return mkb(z3.Exists([i], z3.And(i >= 0, i < s.n, zb(s.get(i)))))


def all_(s):
    if isinstance(s, FSeq):
        i = gvar("e")
        return mkb(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.base_n, zb(s.cond(i))), zb(s.value(i)))))
    c = s.concrete_len()
    if c is not None:
        return mkb(z3.simplify(z3.And(*[zb(s.get(k)) for k in range(c)]))) if c else True
    i = gvar("e")
    return mkb(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n), zb(s.get(i)))))


_sums = []


def sum_(s):
    """Fold sum: recursive function given by S(0)=0, S(k+1)=S(k)+elem(k)."""
    c = s.concrete_len()
    if c is not None:
        t = 0
        for k in range(c):
            t = t + s.get(k)
        return t
    raise Unsupported("sum over symbolic length")


EXTREMA = []  # where the extrema taken lie (hints)


def extremum(s, mx):
    j = fresh("argext", "int")
    EXTREMA.append(j)
    if not decide(s.n > 0):
        raise SymRaise(ValueError("empty"))
    assume(z3.And(j >= 0, j < s.n))
    v = s.get(j)
    k = gvar("x")
    e = s.get(k)
    assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < s.n), zb(e <= v) if mx else zb(e >= v))))
    return v


def iterable(interp, it):
    if isinstance(it, Seq):
        c = it.concrete_len()
        if c is not None:
            return [it.get(k) for k in range(c)]
        return it
    if hasattr(it, "_iter"):
        return iterable(interp, it._iter())
    if isinstance(it, Sym):
        raise Unsupported(f"iteration over {type(it).__name__}")
    if isinstance(it, np.ndarray):
        return [exact(x) for x in it]
    if isinstance(it, (list, tuple, range, dict, set, str)):
        return it
    try:
        return [exact(x) for x in it]
    except TypeError as e:
        raise SymRaise(e)


# ---------------------------------------------------------------- comprehension
def comprehension(interp, gens, elt, env):
    g = gens[0]
    it = interp.ev(g.iter, env)
    if isinstance(it, Case):
        it = it.resolve()
    it = iterable(interp, it)

    def inner(e2):
        """value of the remaining comprehension for the bound element (SKIP if filtered out)."""
        for c in g.ifs:
            if not interp.truth(interp.ev(c, e2)):
                return SKIP
        if len(gens) > 1:
            return comprehension(interp, gens[1:], elt, e2)
        return elt(e2)

    def bind(x):
        e2 = Env({}, env.globals, env)
        e2.qual = getattr(env, "qual", "")
        interp.assign(g.target, x, e2)
        return e2

    if not isinstance(it, Seq):
        out = ctx.born([])
        for x in it:
            v = inner(bind(x))
            if v is SKIP:
                continue
            if len(gens) > 1:
                out = concat(interp, out, v)
                if isinstance(out, list):
                    ctx.born(out)
            else:
                out.append(v) if isinstance(out, list) else None
                if not isinstance(out, list):
                    out = concat(interp, out, [v])
        return out
    n, i, cond, val, filtered = generic_map(interp, it, lambda x: inner(bind(x)))
    if len(gens) > 1:
        fs = isinstance(it, FSeq)
        def inner_seq(j):
            v = val(j)
            if isinstance(v, list):
                v = of_list(v)
            if filtered or fs:
                c = z3.And(zb(it.cond(j)) if fs else z3.BoolVal(True), cond(j) if filtered else z3.BoolVal(True))
                return Seq(z3.If(c, v.n, z3.IntVal(0)), v.get)
            return v
        if not filtered and not fs:
            probe = val(CANON[0])
            if isinstance(probe, list) and len(probe) == 1:
                return Seq(n, lambda j: val(j)[0])
        r = FlatSeq(n, inner_seq)
        if ctx.gvars or not filtered and not fs and r.uniform() is not None:
            r._ensure()
        return r
    if isinstance(it, FSeq):
        if filtered:
            return FSeq(it.base_n, lambda k: mkb(z3.And(zb(it.cond(k)), cond(k))), val)
        r = FSeq2(it, False)
        r.value = val
        return r
    if filtered:
        return FSeq(it.n, lambda k: mkb(cond(k)), val)
    return Seq(it.n, val)


def generic_map(interp, it, body):
    """Run body on a generic element. For FSeq iterates over base indices (value(i) under cond(i)).
    Returns (n, i, cond(j)->z3, val(j), filtered)."""
    i = gvar("i")
    fs = isinstance(it, FSeq)
    n = it.base_n if fs else it.n
    rng = z3.And(i >= 0, i < n)
    base = len(ctx.pc)
    ctx.gvars.append(i)
    try:
        ctx.pc.append(("fact", rng))
        if fs:
            ctx.pc.append(("fact", zb(it.cond(i))))
        x = it.value(i) if fs else it.get(i)
        extra = [f for _, f in ctx.pc[base:]][(2 if fs else 1):]
        ps = explore(lambda: body(x))
        if any(p.mutated for p in ps):
            raise Unsupported("side effect inside comprehension over symbolic sequence")
    finally:
        ctx.gvars.pop()
        del ctx.pc[base:]
    dom = z3.And(rng, zb(it.cond(i))) if fs else rng
    hyp = z3.And(dom, *extra) if extra else dom
    for f in extra:
        assume(z3.ForAll([i], z3.Implies(dom, f)))
    for p in ps:
        for f in p.facts:
            assume(z3.ForAll([i], z3.Implies(dom, f)))
    raises = [p for p in ps if p.kind == "raise"]
    rets = [p for p in ps if p.kind == "ret"]
    if raises:
        for group in _raise_groups(raises):
            rc = z3.Or(*[p.cond for p in group])
            if decide(z3.Exists([i], z3.And(dom, rc))):
                raise group[0].value
    keep = [p for p in rets if p.value is not SKIP]
    skipped = len(keep) < len(rets)
    if not keep:
        if not rets:
            # no feasible element: sequence is empty
            return n, i, (lambda j: z3.BoolVal(False)), (lambda j: None), True
        return n, i, (lambda j: z3.BoolVal(False)), (lambda j: None), True
    v = core.merge_paths(keep)
    c = z3.simplify(z3.Or(*[p.cond for p in keep]))
    return (n, i, lambda j: z3.substitute(c, (i, zi(j))), lambda j: subst(v, [(i, zi(j))]), skipped)


def _raise_groups(raises):
    """raising paths by exception class, unexpected classes first."""
    g = {}
    for p in raises:
        c = p.value.cls
        g.setdefault(c if isinstance(c, str) else c.__name__, []).append(p)
    return [g[k] for k in sorted(g, key=lambda k: (k in ("ValueError", "ValidationError"), k))]


# ---------------------------------------------------------------- for loops
class Effects:
    def __init__(self, lists, outer):
        self.lists = {id(l): l for l in lists}
        self.log = []
        self.outer = outer

    def owns(self, o):
        return id(o) in self.lists

    def record(self, kind, o, v):
        self.log.append((kind, id(o), v))


def _assigned(body):
    out = set()
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
            continue  # own scope
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.Return, ast.Break)):
            raise Unsupported("return/break inside loop over symbolic sequence")
        st.extend(ast.iter_child_nodes(n))
    return out


def for_loop(interp, s, it, env):
    assigned = _assigned(s.body)
    lists = []
    e = env
    while e is not None:
        for v in e.vars.values():
            if isinstance(v, (list, np.ndarray, dict)) or type(v) is Seq or hasattr(v, "_loop_store"):
                lists.append(v)
        e = e.parent
    i = gvar("i")
    fs = isinstance(it, FSeq)
    n = it.base_n if fs else it.n
    rng = z3.And(i >= 0, i < n, zb(it.cond(i))) if fs else z3.And(i >= 0, i < n)
    targets = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
    acc = {}
    for nm in assigned - targets:
        if nm in env.vars:
            v = env.vars[nm]
            if is_num(v) or isinstance(v, Num):
                acc[nm] = Num(z3.Int(f"acc_{nm}!{ctx.fresh_n}")) if (isinstance(v, int) or isinstance(v, Num) and v.is_int) else core.freal("acc_" + nm)
                ctx.fresh_n += 1
            elif isinstance(v, (bool, SBool)):
                acc[nm] = core.fbool("acc_" + nm)
            else:
                # first assume no path rebinds it (checked below), else any use of it is refused
                acc[nm] = v if isinstance(v, (list, np.ndarray, dict)) or type(v) is Seq or hasattr(v, "_loop_store") else _Poison(nm)
    base = len(ctx.pc)
    eff = Effects(lists, ctx.loop_effects)
    results = []

    def thunk():
        eff.log = []
        e2 = Env(dict(env.vars), env.globals, env.parent)
        e2.qual = getattr(env, "qual", "")
        e2.vars.update(acc)
        interp.assign(s.target, it.value(i) if fs else it.get(i), e2)
        try:
            interp.block(s.body, e2)
        except ContinueX:
            pass
        return (list(eff.log), {k: e2.vars.get(k) for k in assigned | targets})

    saved = ctx.loop_effects
    ctx.loop_effects = eff
    ctx.gvars.append(i)
    kept = [nm for nm, x in acc.items() if nm in env.vars and x is env.vars[nm] and not isinstance(x, (Num, SBool, _Poison))]
    ob = len(ctx.obligs)
    try:
        ctx.pc.append(("fact", rng))
        ps = explore(thunk)
        bad = [nm for nm in kept if any(p.kind == "ret" and p.value[1][nm] is not acc[nm] for p in ps)]
        if bad:
            del ctx.pc[base:], ctx.obligs[ob:]
            ctx.pc.append(("fact", rng))
            for nm in bad:
                acc[nm] = _Poison(nm)
            ps = explore(thunk)
    finally:
        ctx.gvars.pop()
        del ctx.pc[base:]
        ctx.loop_effects = saved
    if any(p.mutated for p in ps):
        raise Unsupported("untracked side effect in loop over symbolic sequence")
    for p in ps:
        for f in p.facts:
            assume(z3.ForAll([i], z3.Implies(rng, f)))
    raises = [p for p in ps if p.kind == "raise"]
    rets = [p for p in ps if p.kind == "ret"]
    if raises:
        for group in _raise_groups(raises):
            rc = z3.Or(*[p.cond for p in group])
            if decide(z3.Exists([i], z3.And(rng, rc))):
                raise group[0].value
    # list effects
    touched = {}
    for p in rets:
        for kind, oid, v in p.value[0]:
            touched.setdefault(oid, set()).add(kind)
    rebind = {}
    for oid, kinds in touched.items():
        lst = eff.lists[oid]
        if kinds == {"append"}:
            cond, vals = [], []
            for p in rets:
                mine = [v for k, o, v in p.value[0] if o == oid]
                if len(mine) > 1:
                    raise Unsupported("several appends per iteration")
                if mine:
                    cond.append(p)
                    vals.append(mine[0])
            v = vals[-1]
            for p, x in reversed(list(zip(cond[:-1], vals[:-1]))):
                v = ite(p.cond, x, v)
            c = z3.simplify(z3.Or(*[p.cond for p in cond]))
            cj = lambda j, c=c: z3.substitute(c, (i, zi(j)))
            vj = lambda j, v=v: subst(v, [(i, zi(j))])
            if fs:
                res = FSeq(n, lambda k: mkb(z3.And(zb(it.cond(k)), cj(k))), vj)
            elif len(cond) == len(rets):
                res = Seq(n, vj)
            else:
                res = FSeq(n, lambda k: mkb(cj(k)), vj)
            rebind[oid] = concat(interp, lst if isinstance(lst, (list, Seq)) else _no(), res)
        elif kinds == {"store"}:
            per = [(p.cond, [v for k, o, v in p.value[0] if o == oid]) for p in rets]
            if hasattr(lst, "_loop_store") and not fs:
                rebind[oid] = lst._loop_store(interp, n, i, rng, per)
                continue
            if fs:
                raise Unsupported("conditional stores in loop")
            if len(per) > 1:
                # every path stores at the same places: one store of a value chosen by the path
                m = len(per[0][1])
                if any(len(st) != m for _, st in per) or any(isinstance(st[c][0], (tuple, slice)) or not z3.eq(zi(st[c][0]), zi(per[0][1][c][0])) for _, st in per for c in range(m)):
                    raise Unsupported("conditional stores in loop")
                stores = []
                for c in range(m):
                    v = per[-1][1][c][1]
                    for cond, st in reversed(per[:-1]):
                        v = ite(cond, st[c][1], v)
                    stores.append((per[0][1][c][0], v))
            else:
                stores = per[0][1]
            if isinstance(lst, dict):
                if lst or len(stores) != 1:
                    raise Unsupported("stores into a dictionary in a loop")
                kx, vx = stores[0]
                rebind[oid] = SMap(n, lambda j, kx=kx: subst(kx, [(i, zi(j))]), lambda j, vx=vx: subst(vx, [(i, zi(j))]), it if hasattr(it, "unique_of") else None)
                continue
            rebind[oid] = store_summary(interp, lst, n, i, rng, stores)
        else:
            raise Unsupported("mixed list effects in loop")
    for oid, v in rebind.items():
        old = eff.lists[oid]
        e = env
        while e is not None:
            for k, x in list(e.vars.items()):
                if x is old:
                    e.vars[k] = v
            e = e.parent
        if ctx.loop_effects is not None and ctx.loop_effects.owns(old):
            raise Unsupported("effect on outer list in nested symbolic loop")
    # scalar accumulators
    for nm in acc:
        vals = [(p, p.value[1][nm]) for p in rets]
        a = acc[nm]
        if all(v is a or (isinstance(v, Num) and z3.eq(v.e, a.e)) or (isinstance(v, SBool) and v.e is getattr(a, "e", None)) for _, v in vals):
            continue
        if isinstance(a, _Poison):
            if any(v is a for _, v in vals):
                raise Unsupported("loop-carried non-scalar")
            env.vars[nm] = _Poison(nm)
            continue
        raise Unsupported(f"loop-carried variable {nm}")
    for nm in (assigned | targets) - set(acc):
        env.vars[nm] = _Poison(nm)


def _no():
    raise Unsupported("append to non-list")


class SMap(Sym):
    """dictionary filled by  for j in 0..n: d[key(j)] = val(j)."""

    def __init__(self, n, key, val, of=None):
        self.n, self.key, self.val, self.of = n, key, val, of

    def _has(self, ix):
        """the key is found at the place of a row in scope (instance of the definition of the distinct values)."""
        if self.of is None:
            return False
        s, P = self.of.unique_of
        for g in ctx.gvars:
            p = P(g)
            assume(z3.Implies(z3.And(g >= 0, g < s.n), z3.And(p >= 0, p < self.n, equal(self.of.get(p), s.get(g)))))
            w = z3.And(p >= 0, p < self.n, equal(self.key(p), ix))
            r = core.feasible(z3.Not(w), ground=True)
            if (core.feasible(z3.Not(w)) if r is None else r) is False:
                return True
        return False

    def _getitem(self, interp, ix):
        ctx.fresh_n += 1
        gv = list(ctx.gvars)
        j = z3.Function(f"last_store!{ctx.fresh_n}", *[z3.IntSort()] * len(gv), z3.IntSort())(*gv) if gv else z3.Int(f"last_store!{ctx.fresh_n}")
        q = gvar("q")
        if not self._has(ix) and not decide(z3.Exists([q], z3.And(q >= 0, q < self.n, equal(self.key(q), ix)))):
            raise SymRaise(KeyError("missing key"))
        assume(z3.And(j >= 0, j < self.n, equal(self.key(j), ix), z3.ForAll([q], z3.Implies(z3.And(q > j, q < self.n), z3.Not(equal(self.key(q), ix))))))
        return self.val(j)

    def _subst(self, p):
        return SMap(z3.substitute(self.n, *p), lambda j: _late(self.key, j, p), lambda j: _late(self.val, j, p), self.of)


class _Poison(Sym):
    def __init__(self, nm):
        self.nm = nm

    def __getattr__(self, k):
        raise Unsupported(f"use of loop-carried variable {self.__dict__.get('nm')}")


def store_summary(interp, lst, n, i, rng, stores):
    """lst after  for i in range(n): lst[idx_c(i)] = v_c(i)   (distinct indices are proved)."""
    idx = []
    for ix, v in stores:
        if isinstance(ix, (tuple, slice)):
            raise Unsupported("tuple store in loop")
        idx.append(zi(ix))
    j = gvar("j")
    L = lst if isinstance(lst, Seq) else of_list(list(lst))
    for a in range(len(idx)):
        core.oblig("store index within bounds", z3.ForAll([i], z3.Implies(rng, z3.And(idx[a] >= 0, idx[a] < L.n))))
        for b in range(len(idx)):
            jb = z3.substitute(idx[b], (i, j))
            dom = z3.And(rng, z3.substitute(rng, (i, j)))
            core.oblig("store indices distinct", z3.ForAll([i, j], z3.Implies(z3.And(dom, (i != j) if a == b else z3.BoolVal(True)), idx[a] != jb)))
    # inverse functions it_c(k): iteration that wrote k
    ctx.fresh_n += 1
    inv = [z3.Function(f"inv!{ctx.fresh_n}_{c}", z3.IntSort(), z3.IntSort()) for c in range(len(idx))]
    wr = [z3.Function(f"wrote!{ctx.fresh_n}_{c}", z3.IntSort(), z3.BoolSort()) for c in range(len(idx))]
    for c in range(len(idx)):
        k = gvar("k")
        w = wr[c](k)
        assume(z3.ForAll([k], z3.Implies(w, z3.And(z3.substitute(rng, (i, inv[c](k))), z3.substitute(idx[c], (i, inv[c](k))) == k)), patterns=[w]))
        assume(z3.ForAll([i], z3.Implies(rng, z3.And(wr[c](idx[c]), inv[c](idx[c]) == i))))

    def get(k):
        v = L.get(k)
        for c in reversed(range(len(idx))):
            v = ite(wr[c](k), subst(stores[c][1], [(i, inv[c](k))]), v)
        return v
    r = Seq(L.n, get)
    r.stores = [(c, idx[c], stores[c][1], i) for c in range(len(idx))]
    return r


def str_join(interp, sep, xs):
    return StrJoin(sep, xs)


class StrJoin(Sym):
    def __init__(self, sep, xs):
        self.sep, self.xs = sep, xs

    def _subst(self, p):
        return StrJoin(self.sep, subst(self.xs, p))

    def _equal(self, o):
        return z3.And(z3.BoolVal(isinstance(o, StrJoin) and o.sep == self.sep), equal(self.xs, o.xs)) if isinstance(o, StrJoin) else z3.BoolVal(False)
