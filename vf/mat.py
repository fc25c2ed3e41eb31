"""Three-row arrays of vectors with any number of columns: a (3, N) numpy array of positions, velocities, rays."""
import numpy as np
import z3
from . import core
from .core import Num, Sym, Unsupported, subst, equal, fn, mkn, ite, ctx
from .seq import Seq, zi
from .interp import is_sym
from .interp import MODELS, exact


def column(m, j):
    a = np.empty(3, dtype=object)
    for c in range(3):
        a[c] = m.f(c, j)
    return a


def _num(x):
    return isinstance(x, (int, float, np.number)) or core.is_num(x) or isinstance(x, Num)


class Mat3(Sym):
    """value(c, j): component c (0..2) of column j."""

    def __init__(self, n, f):
        self.n, self.f = n, f

    ndim = 2

    @property
    def shape(self):
        return (3, mkn(self.n))

    def _size(self, axis=None):
        return mkn(self.n) if axis in (1, -1) else 3 if axis in (0, -2) else mkn(self.n) * 3

    def _len(self):
        return 3

    def _subst(self, p):
        f, n = self.f, z3.substitute(self.n, *p)
        j = z3.Int("j!mat")
        vals = [subst(f(c, j), p) for c in range(3)]
        return Mat3(n, lambda c, k: subst(vals[c], [(j, zi(k))]))

    def _b(self, o, g):
        if isinstance(o, core.Case):
            o = o.resolve()
        if isinstance(o, Mat3):
            core.oblig("arrays of the same shape", self.n == o.n)
            return Mat3(self.n, lambda c, j: g(self.f(c, j), o.f(c, j)))
        if isinstance(o, Seq):
            core.oblig("arrays of the same shape", self.n == o.n)
            return Mat3(self.n, lambda c, j: g(self.f(c, j), o.get(j)))
        if _num(o):
            o = exact(o) if not isinstance(o, Num) else o
            return Mat3(self.n, lambda c, j: g(self.f(c, j), o))
        if isinstance(o, np.ndarray) and o.shape == (3, 1):
            return Mat3(self.n, lambda c, j: g(self.f(c, j), o[c, 0]))
        return NotImplemented

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._b(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._b(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    def __neg__(self):
        return Mat3(self.n, lambda c, j: -self.f(c, j))

    def copy(self):
        return Mat3(self.n, self.f)

    @property
    def T(self):
        return TMat(self)

    def _vmap(self, g):
        return Mat3(self.n, lambda c, j: g(self.f(c, j)))

    def _norm(self, axis=None):
        if axis not in (0, -2):
            raise Unsupported("norm along another axis")
        return Seq(self.n, lambda j: fn("sqrt", self.f(0, j) * self.f(0, j) + self.f(1, j) * self.f(1, j) + self.f(2, j) * self.f(2, j)), True)

    def _getitem(self, interp, ix):
        full = lambda x: not isinstance(x, Sym) and isinstance(x, slice) and x == slice(None)
        if isinstance(ix, int):
            ix = (ix, slice(None))
        if isinstance(ix, tuple) and len(ix) == 2:
            a, b = ix
            if isinstance(a, int) and full(b):
                if not -3 <= a < 3:
                    raise core.SymRaise(IndexError("row"))
                a %= 3
                return Seq(self.n, lambda j: self.f(a, j), True)
            if full(a) and (isinstance(b, (int, Num))):
                j = zi(b)
                if not core.decide(z3.And(j >= -self.n, j < self.n)):
                    raise core.SymRaise(IndexError("column"))
                if not core.decide(j >= 0):
                    j = j + self.n
                return column(self, j)
            if isinstance(a, int) and isinstance(b, (int, Num)):
                return self._getitem(interp, (slice(None), b))[a]
        raise Unsupported("array selection")

    def _iter(self):
        return [self._getitem(None, c) for c in range(3)]

    def _loop_store(self, interp, n, i, rng, paths):
        """the array after  for i in range(n): self[:, i] = v(i)  where each path stores once."""
        if not z3.eq(z3.simplify(n - self.n), z3.IntVal(0)):
            core.oblig("every column is visited", n == self.n)
        vals = []
        for cond, stores in paths:
            if len(stores) != 1:
                raise Unsupported("column stored a different number of times")
            ix, v = stores[0]
            if not (isinstance(ix, tuple) and len(ix) == 2 and ix[0] == slice(None) and z3.eq(zi(ix[1]), i)):
                raise Unsupported("store to another column")
            v = list(interp.as_list(v, 3))
            vals.append((cond, v))
        out = vals[-1][1]
        for cond, v in reversed(vals[:-1]):
            out = [ite(cond, a, b) for a, b in zip(v, out)]
        return Mat3(self.n, lambda c, k: subst(out[c], [(i, zi(k))]))


class TMat(Sym):
    """(N, 3) transpose."""

    def __init__(self, m):
        self.m = m

    ndim = 2

    @property
    def T(self):
        return self.m

    @property
    def shape(self):
        return (mkn(self.m.n), 3)

    def _subst(self, p):
        return TMat(subst(self.m, p))

    def _getitem(self, interp, ix):
        if isinstance(ix, (int, Num)):
            return self.m._getitem(interp, (slice(None), ix))
        raise Unsupported("array selection")


def _cross(a, b):
    return Mat3(a.n, lambda c, j: a.f((c + 1) % 3, j) * b.f((c + 2) % 3, j) - a.f((c + 2) % 3, j) * b.f((c + 1) % 3, j))


def install():
    old = MODELS[np.cross]
    if getattr(old, "_mat", False):
        return

    def cross(interp, args, kw):
        a, b = args[0], args[1]
        if isinstance(a, (Mat3, TMat)) and isinstance(b, (Mat3, TMat)):
            names = ("axisa", "axisb", "axisc")
            ax = dict(zip(names, args[2:5]))
            ax.update({k: v for k, v in kw.items() if k != "axis"})
            if len(args) > 5 or kw.get("axis") is not None:
                x = kw.get("axis", args[5] if len(args) > 5 else None)
                ax = dict.fromkeys(names, x)
            ok = lambda m, x: x in ((0, -2) if isinstance(m, Mat3) else (1, -1))
            if not ok(a, ax.get("axisa", -1)) or not ok(b, ax.get("axisb", -1)):
                raise Unsupported("cross along another axis")
            u, w = (m if isinstance(m, Mat3) else m.m for m in (a, b))
            core.oblig("arrays of the same shape", u.n == w.n)
            r = _cross(u, w)
            return r if ax.get("axisc", -1) in (0, -2) else TMat(r)
        return old(interp, args, kw)
    cross._mat = True
    MODELS[np.cross] = cross
    MODELS[np.zeros_like] = zeros_like
    MODELS[np.squeeze] = squeeze


def zeros_like(interp, args, kw):
    x = args[0]
    if isinstance(x, Mat3):
        return Mat3(x.n, lambda c, j: 0)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.full(x.shape, 0, dtype=object)
    if isinstance(x, Seq):
        return Seq(x.n, lambda j: 0, True)
    return NotImplemented if not is_sym(x) else _u()


def squeeze(interp, args, kw):
    x = args[0]
    if isinstance(x, Num):
        return x
    if isinstance(x, Seq):
        if core.decide(x.n == 1):
            return x.get(z3.IntVal(0))
        return x
    return NotImplemented if not is_sym(x) else _u()


def _u():
    raise Unsupported("array of another kind")
