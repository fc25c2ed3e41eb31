"""Symbolic tables of unbounded length: the assumed contracts of the pandas/geopandas table operations."""
import builtins, operator
from datetime import timedelta
from fractions import Fraction
import numpy as np
import pandas as pd
import geopandas as gpd
import z3
from . import core, seq
from .core import Sym, Num, SBool, Case, Unsupported, SymRaise, ctx, zb, mkb, mkn, subst, equal, assume, ite
from .seq import Seq, FSeq, FlatSeq, StrJoin, zi, gvar
from .interp import MODELS, METHOD_MODELS, model, is_sym
from .tmodel import STime, SDelta

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


# ------------------------------------------------------------------ possibly missing values
class Maybe(Sym):
    """A value that may be missing (NaT / NaN / None of a table)."""

    def __init__(self, null, val):
        self.null, self.val = null, val

    def _subst(self, p):
        return Maybe(z3.substitute(self.null, *p), subst(self.val, p))

    def _equal(self, o):
        o = maybe(o)
        if self.val is None or o.val is None:
            return self.null == o.null
        return z3.Or(z3.And(self.null, o.null), z3.And(z3.Not(self.null), z3.Not(o.null), equal(self.val, o.val)))

    def _ite(self, c, o, rev):
        o = maybe(o)
        a, b = (o, self) if rev else (self, o)
        if a.val is None:
            return Maybe(z3.If(c, a.null, b.null), b.val)
        if b.val is None:
            return Maybe(z3.If(c, a.null, b.null), a.val)
        return Maybe(z3.If(c, a.null, b.null), ite(c, a.val, b.val))

    def _cmp(self, o, f):
        o = maybe(o)
        if self.val is None or o.val is None:
            return mkb(z3.BoolVal(False))
        return mkb(z3.And(z3.Not(self.null), z3.Not(o.null), zb(f(self.val, o.val))))

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __eq__(self, o):
        return self._cmp(o, operator.eq)

    def __ne__(self, o):
        r = self._cmp(o, operator.eq)
        return mkb(z3.Not(r.e)) if isinstance(r, SBool) else not r

    __hash__ = object.__hash__

    def _op(self, o, f):
        o = maybe(o)
        if self.val is None or o.val is None:
            return Maybe(z3.BoolVal(True), None)
        return Maybe(z3.simplify(z3.Or(self.null, o.null)), f(self.val, o.val))

    def __sub__(self, o):
        return self._op(o, operator.sub)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a)

    def __add__(self, o):
        return self._op(o, operator.add)

    def __radd__(self, o):
        return self._op(o, lambda a, b: b + a)

    def __truediv__(self, o):
        return self._op(o, operator.truediv)

    def __mul__(self, o):
        return self._op(o, operator.mul)


NONE = Maybe(z3.BoolVal(True), None)
core.MISSING[0] = lambda c, a, b: maybe(a)._ite(c, maybe(b), False)


def maybe(x):
    if isinstance(x, Maybe):
        return x
    if x is None or x is pd.NaT or isinstance(x, float) and x != x:
        return NONE
    return Maybe(z3.BoolVal(False), x)


@model(pd.isna, pd.isnull)
def _(interp, args, kw):
    x = args[0]
    if isinstance(x, Maybe):
        return mkb(x.null)
    if isinstance(x, Seq):
        return Seq(x.n, lambda j: mkb(maybe(x.get(j)).null), True)
    if isinstance(x, (Num, STime, SDelta)):
        return False
    return NotImplemented


for cls in (STime, SDelta):
    def mk(cls):
        old = cls.__dict__.get("_ite")

        def _ite(self, c, o, rev):
            if o is pd.NaT or isinstance(o, float) and o != o:
                return Maybe(c if rev else z3.Not(c), self)
            if isinstance(o, Maybe):
                return maybe(self)._ite(c, o, rev)
            return old(self, c, o, rev) if old else NotImplemented
        cls._ite = _ite
    mk(cls)


# ------------------------------------------------------------------ index functions under generic loop variables
def fresh_fn(name, *sorts):
    """fresh function of the generic indices in scope and further arguments."""
    ctx.fresh_n += 1
    gv = list(ctx.gvars)
    s = [I] * len(gv) + list(sorts)
    if len(s) == 1:
        c = z3.Const(f"{name}!{ctx.fresh_n}", s[-1])
        return lambda: c
    f = z3.Function(f"{name}!{ctx.fresh_n}", *s)
    g = lambda *a: f(*gv, *a)
    g.f = f
    return g


def put(f):
    (assume if ctx.gvars else core.define)(f)


def rng(x, n):
    return z3.And(x >= 0, x < n)


SORTS = []        # sorts introduced so far: (rows, permutation, its inverse)
RUNNING = []      # running extrema introduced so far: (kind, value function, row function), of the generic indices and the row


class Grouping:
    """rows 0..n grouped by key: groups in increasing key order, members of a group in row order."""

    def __init__(self, n, key, sorted_keys=True):
        self.n, self.keyf = n, key
        self.m = fresh_fn("groups", I)()
        size, row, gi, pos = fresh_fn("gsize", I, I), fresh_fn("grow", I, I, I), fresh_fn("gof", I, I), fresh_fn("gpos", I, I)
        self.size, self.row, self.gi, self.pos = size, row, gi, pos
        h, k, q, p, r = [gvar(x) for x in "hkqpr"]
        m = self.m
        ctx.trust("pandas groupby/dissolve: one group per distinct key in key order, each with exactly the rows of that key in row order")
        put(m >= 0)
        put(z3.ForAll([h], z3.Implies(rng(h, m), size(h) >= 1), patterns=[size(h)]))
        put(z3.ForAll([h, q], z3.Implies(z3.And(rng(h, m), rng(q, size(h))), z3.And(rng(row(h, q), n), gi(row(h, q)) == h, pos(row(h, q)) == q)), patterns=[row(h, q)]))
        put(z3.ForAll([h, p, q], z3.Implies(z3.And(rng(h, m), p >= 0, p < q, q < size(h)), row(h, p) < row(h, q)), patterns=[z3.MultiPattern(row(h, p), row(h, q))]))
        put(z3.ForAll([r], z3.Implies(rng(r, n), z3.And(rng(gi(r), m), rng(pos(r), size(gi(r))), row(gi(r), pos(r)) == r)), patterns=[gi(r)]))
        put(z3.ForAll([r, q], z3.Implies(z3.And(rng(r, n), rng(q, n)), (gi(r) == gi(q)) == equal(key(r), key(q))), patterns=[z3.MultiPattern(gi(r), gi(q))]))
        if sorted_keys:
            put(z3.ForAll([r, q], z3.Implies(z3.And(rng(r, n), rng(q, n)), (gi(r) < gi(q)) == zb(key(r) < key(q))), patterns=[z3.MultiPattern(gi(r), gi(q))]))

    def key(self, h):
        return self.keyf(self.row(h, z3.IntVal(0)))


class Members(Seq):
    """one column of one group, as passed to an aggregation function."""

    def __init__(self, n, f, labels):
        super().__init__(n, f, True)
        self.labels = labels

    @property
    def index(self):
        return self.labels


class TFrame(Sym):
    def __init__(self, n, cols, index=None):
        """cols: name -> function of the row number. index: 'range' (labels 0..n-1) or None (any labels)."""
        self.n, self.cols, self.index_ = n, dict(cols), index
        self.key = None          # name and values of a named index
        self.groups = None
        self.aggs = {}

    def _clone(self, n=None, cols=None, index=None):
        f = TFrame(self.n if n is None else n, self.cols if cols is None else cols, index)
        f.groups, f.aggs, f.key = self.groups, self.aggs, self.key
        for x in ("perm", "inv", "base", "match", "clipped", "source"):
            if hasattr(self, x):
                setattr(f, x, getattr(self, x))
        return f

    def _subst(self, p):
        f = TFrame(z3.substitute(self.n, *p), {k: (lambda j, c=c: seq._late(c, j, p)) for k, c in self.cols.items()}, self.index_)
        f.key = self.key
        g = self.groups
        f.aggs = {k: (kind, (lambda h, mem=mem: subst(mem(h), p)), (lambda h, val=val: seq._late(val, h, p))) for k, (kind, mem, val) in self.aggs.items()}
        if g is not None:
            s = lambda fn: (lambda *a: seq_late(fn, a, p))
            ng = Grouping.__new__(Grouping)
            ng.n, ng.m = z3.substitute(g.n, *p), z3.substitute(g.m, *p)
            ng.size, ng.row, ng.gi, ng.pos = s(g.size), s(g.row), s(g.gi), s(g.pos)
            ng.keyf = lambda r: seq._late(g.keyf, r, p)
            f.groups = ng
        for x in ("perm", "inv"):
            if hasattr(self, x):
                fn = getattr(self, x)
                setattr(f, x, lambda *a, fn=fn: seq_late(fn, a, p))
        if hasattr(self, "base"):
            f.base = subst(self.base, p)
        return f

    def _isinstance(self, c):
        return c in (gpd.GeoDataFrame, pd.DataFrame)

    # ---- columns
    def _col(self, name):
        if name not in self.cols:
            raise SymRaise(KeyError(name))
        return Seq(self.n, self.cols[name], True)

    def _getitem(self, interp, ix):
        if isinstance(ix, str):
            return self._col(ix)
        if isinstance(ix, list) and all(isinstance(x, str) for x in ix):
            for x in ix:
                self._col(x)
            return self._clone(cols={x: self.cols[x] for x in ix}, index=self.index_)
        raise Unsupported("table selection")

    def _setitem(self, interp, ix, v):
        if not isinstance(ix, str):
            raise Unsupported("table assignment")
        if isinstance(v, Seq):
            self.cols[ix] = v.get
        elif isinstance(v, (list, tuple, np.ndarray)):
            raise Unsupported("assigning a list")
        else:
            self.cols[ix] = lambda j, v=v: v

    def __getattr__(self, name):
        if name.startswith("_") or "cols" not in self.__dict__ or name not in self.cols:
            raise AttributeError(name)
        return self._col(name)

    def _len(self):
        return mkn(self.n)

    @property
    def empty(self):
        return mkb(self.n <= 0)

    @property
    def crs(self):
        return "EPSG:4326"

    @property
    def loc(self):
        return Loc(self)

    def copy(self, deep=True):
        return self._clone(index=self.index_)

    def apply(self, *a, **k):
        raise Unsupported("apply to a table")

    def notna(self):
        return self._clone(cols={k: (lambda j, c=c: mkb(z3.Not(maybe(c(j)).null))) for k, c in self.cols.items()}, index=self.index_)

    def set_crs(self, *a, **k):
        return self

    def _inplace(self, o):
        self.n, self.cols, self.index_, self.groups, self.aggs, self.key = o.n, o.cols, o.index_, o.groups, o.aggs, o.key
        for x in ("perm", "inv", "base"):
            if hasattr(o, x):
                setattr(self, x, getattr(o, x))

    def rename(self, columns=None, inplace=False, **kw):
        if kw or columns is None:
            raise Unsupported("rename options")
        r = self._clone(cols={columns.get(k, k): c for k, c in self.cols.items()}, index=self.index_)
        if inplace:
            self._inplace(r)
            return None
        return r

    def reset_index(self, drop=False, inplace=False):
        if drop or self.key is None:
            cols = dict(self.cols)
        else:
            cols = {self.key[0]: self.key[1], **self.cols}
        r = self._clone(cols=cols, index="range")
        r.key = None
        if inplace:
            self._inplace(r)
            return None
        return r

    def sort_values(self, by, inplace=False, ignore_index=False, **kw):
        if set(kw) - {"kind"} or not isinstance(by, str) and not (isinstance(by, list) and len(by) == 1):
            raise Unsupported("sort options")
        c = self.cols[by if isinstance(by, str) else by[0]]
        p, q = fresh_fn("sort", I, I), fresh_fn("isort", I, I)
        k, l = gvar("x"), gvar("y")
        n = self.n
        ctx.trust("pandas sort_values: a permutation of the rows into nondecreasing order of the column")
        put(z3.ForAll([k], z3.Implies(rng(k, n), z3.And(rng(p(k), n), q(p(k)) == k)), patterns=[p(k)]))
        put(z3.ForAll([k], z3.Implies(rng(k, n), z3.And(rng(q(k), n), p(q(k)) == k)), patterns=[q(k)]))
        put(z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k <= l, l < n), zb(c(p(k)) <= c(p(l)))), patterns=[z3.MultiPattern(p(k), p(l))]))
        r = TFrame(n, {x: (lambda j, f=f: f(p(j))) for x, f in self.cols.items()}, "range" if ignore_index else None)
        SORTS.append((n, p, q))
        r.perm, r.inv, r.base = p, q, self._clone(index=self.index_)
        if inplace:
            self._inplace(r)
            return None
        return r


def seq_late(fn, args, p):
    """apply fn to arguments free of the substituted variables, substituting in its body only."""
    vs = [gvar("s") for _ in args]
    return z3.substitute(z3.substitute(fn(*vs), *p), *[(v, zi(a)) for v, a in zip(vs, args)])


class Loc(Sym):
    def __init__(self, f):
        self.f = f

    def _subst(self, p):
        return Loc(subst(self.f, p))

    def _getitem(self, interp, ix):
        if isinstance(ix, tuple) and len(ix) == 2 and isinstance(ix[1], str) and isinstance(ix[0], Labels):
            if ix[0].frame_id != id(self.f.cols) and not (self.f.index_ == "range" and ix[0].kind == "range"):
                raise Unsupported("selection by labels of another table")
            c = self.f.cols[ix[1]]
            lab = ix[0]
            return Seq(lab.n, lambda j: c(lab.get(j)), True)
        raise Unsupported("label selection")

    def _setitem(self, interp, ix, v):
        if isinstance(ix, tuple) and len(ix) == 2 and isinstance(ix[0], Seq) and isinstance(ix[1], (list, str)):
            names = [ix[1]] if isinstance(ix[1], str) else ix[1]
            vals = [v] * len(names) if isinstance(ix[1], str) or not isinstance(v, (list, tuple)) else list(v)
            if len(names) != len(vals):
                raise Unsupported("label assignment")
            mask = ix[0].get
            for nm, x in zip(names, vals):
                old = self.f.cols[nm]
                self.f.cols[nm] = lambda j, old=old, x=x: maybe(x)._ite(zb(mask(j)), old(j), False)
            return
        raise Unsupported("label assignment")


class Labels(Seq):
    def __init__(self, n, f, frame):
        super().__init__(n, f, True)
        self.frame_id, self.kind = id(frame.cols), frame.index_


# ------------------------------------------------------------------ column operations of a series
def _shift(interp, s, args, kw):
    k = args[0] if args else kw.get("periods", 1)
    if k not in (1, -1) or set(kw) - {"periods"}:
        raise Unsupported("shift")
    n = s.n
    ctx.trust("pandas shift: values moved by one row, the vacated row is missing")
    if k == 1:
        return Seq(n, lambda j: _may(j > 0, s.get(j - 1)), True)
    return Seq(n, lambda j: _may(j < n - 1, s.get(j + 1)), True)


def _may(c, x):
    x = maybe(x)
    return Maybe(z3.simplify(z3.Or(z3.Not(c), x.null)), x.val)


def _cumext(mx):
    def m(interp, s, args, kw):
        if args or kw:
            raise Unsupported("cummax options")
        n = s.n
        M, W = fresh_fn("cummax" if mx else "cummin", I, R), fresh_fn("cumw", I, I)
        RUNNING.append(("cummax" if mx else "cummin", M.f, W.f))
        get = lambda j: maybe(s.get(j))
        probe = get(gvar("z")).val
        kind = type(probe)
        if kind not in (STime, SDelta, Num):
            raise Unsupported("cumulative extremum of this kind")
        ex = lambda j: core.zr(get(j).val) if kind is Num else get(j).val.e
        i, k = gvar("x"), gvar("y")
        ok = lambda j: z3.And(rng(j, n), z3.Not(get(j).null))
        le = (lambda a, b: a <= b) if mx else (lambda a, b: b <= a)
        ctx.trust("pandas cummax/cummin: running extremum of the values present so far, missing where the value is missing")
        put(z3.ForAll([i], z3.Implies(ok(i), z3.And(le(ex(i), M(i)), W(i) >= 0, W(i) <= i, ok(W(i)), M(i) == ex(W(i)))), patterns=[M(i)]))
        put(z3.ForAll([i, k], z3.Implies(z3.And(ok(i), ok(k), i <= k), le(M(i), M(k))), patterns=[z3.MultiPattern(M(i), M(k))]))
        mk = (lambda e: Num(e)) if kind is Num else kind
        return Seq(n, lambda j: Maybe(get(j).null, mk(M(j))) , True)
    return m


def _cumsum(interp, s, args, kw):
    if args or kw:
        raise Unsupported("cumsum options")
    s = getattr(s, "flags", s)
    probe = s.get(gvar("z"))
    if not isinstance(probe, (SBool, bool)):
        raise Unsupported("cumsum of numbers")
    n = s.n
    C = fresh_fn("cumsum", I, I)
    RUNNING.append(("cumsum", C, None))
    b = lambda j: z3.If(zb(s.get(j)), z3.IntVal(1), z3.IntVal(0))
    i, k = gvar("x"), gvar("y")
    ctx.trust("pandas cumsum of flags: running count of the flags set")
    put(z3.Implies(n > 0, C(z3.IntVal(0)) == b(z3.IntVal(0))))
    put(z3.ForAll([i], z3.Implies(z3.And(i > 0, i < n), C(i) == C(i - 1) + b(i)), patterns=[C(i)]))
    put(z3.ForAll([i, k], z3.Implies(z3.And(i >= 0, i <= k, k < n), C(i) <= C(k)), patterns=[z3.MultiPattern(C(i), C(k))]))
    r = Seq(n, lambda j: Num(C(j)), True)
    return r


def _apply(interp, s, args, kw):
    if kw or len(args) != 1:
        raise Unsupported("apply options")
    n, i, c, val, skipped = seq.generic_map(interp, Seq(s.n, s.get, True), lambda x: interp.call(args[0], [x], {}))
    return Seq(s.n, val, True)


def stub(cls, name):
    if not hasattr(cls, name):
        def f(self, *a, **k):
            raise Unsupported(name)
        f.__name__ = name
        setattr(cls, name, f)


for _n, _f in dict(shift=_shift, cummax=_cumext(True), cummin=_cumext(False), cumsum=_cumsum, apply=_apply, map=_apply,
                   isna=lambda interp, s, a, k: Seq(s.n, lambda j: mkb(maybe(s.get(j)).null), True),
                   notna=lambda interp, s, a, k: Seq(s.n, lambda j: mkb(z3.Not(maybe(s.get(j)).null)), True),
                   max=lambda interp, s, a, k: seq.extremum(s, True), min=lambda interp, s, a, k: seq.extremum(s, False)).items():
    for _c in (Seq, Members):
        stub(_c, _n)
        METHOD_MODELS.setdefault((_c, _n), _f)


# ------------------------------------------------------------------ grouping
def _groupby(interp, fr, args, kw):
    a = list(args) + ([kw["by"]] if "by" in kw else [])
    if len(a) != 1 or not isinstance(a[0], str) or set(kw) - {"by"}:
        raise Unsupported("groupby options")
    g = Grouping(fr.n, fr.cols[a[0]])

    def sub(h):
        f = TFrame(g.size(h), {k: (lambda j, c=c: c(g.row(h, j))) for k, c in fr.cols.items()}, None)
        return (g.key(h), f)
    s = Seq(g.m, sub)
    s.grouping = g
    fr.last_grouping = g
    return s


stub(TFrame, "groupby")
stub(TFrame, "dissolve")
stub(TFrame, "sjoin")
METHOD_MODELS[(TFrame, "groupby")] = _groupby


def aggregate(interp, kind, mem, val_kind=None):
    """mem: group index -> Members. Returns function h -> value, or None."""
    probe = mem(gvar("z")).get(gvar("y"))
    if kind == "first":
        return lambda h: mem(h).get(z3.IntVal(0))
    if kind == "last":
        return lambda h: mem(h).get(mem(h).n - 1)
    p = maybe(probe)
    if isinstance(p.val, (int, Fraction)) and not isinstance(p.val, bool):
        if kind == "sum" and p.val == 1:
            return lambda h: Num(mem(h).n)      # a sum of ones counts the members
        raise Unsupported("aggregation of a constant")
    if kind in ("min", "max"):
        if type(p.val) not in (STime, SDelta, Num) or not z3.is_false(z3.simplify(p.null)):
            raise Unsupported("extremum of this kind")
        ex = lambda x: core.zr(x) if isinstance(x, Num) else x.e
        A, W = fresh_fn("agg_" + kind, I, R), fresh_fn("aggw", I, I)
        h, q = gvar("h"), gvar("q")
        n = lambda h: mem(h).n
        put(z3.ForAll([h], z3.Implies(n(h) >= 1, z3.And(rng(W(h), n(h)), A(h) == ex(mem(h).get(W(h))))), patterns=[A(h)]))
        e = ex(mem(h).get(q))
        body = z3.Implies(rng(q, n(h)), (A(h) <= e) if kind == "min" else (e <= A(h)))
        put(z3.ForAll([h, q], body, patterns=[z3.MultiPattern(A(h), e)]) if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.ForAll([h, q], body))
        mk = Num if isinstance(p.val, Num) else type(p.val)
        return lambda h: mk(A(h))
    if kind in ("mean", "sum", "count", "size"):
        if type(p.val) not in (STime, SDelta, Num):
            raise Unsupported("mean of this kind")
        A = fresh_fn("agg_" + kind, I, R)
        mk = Num if isinstance(p.val, Num) else type(p.val)
        if kind == "mean" and not z3.is_false(z3.simplify(p.null)):
            N = fresh_fn("agg_none", I, B)
            h, q = gvar("h"), gvar("q")
            # missing exactly when every member is missing
            put(z3.ForAll([h], N(h) == z3.ForAll([q], z3.Implies(rng(q, mem(h).n), maybe(mem(h).get(q)).null)), patterns=[N(h)]))
            return lambda h: Maybe(N(h), mk(A(h)))
        return lambda h: mk(A(h))
    if callable(kind) and getattr(kind, "__name__", "") == "join" and isinstance(getattr(kind, "__self__", None), str):
        return lambda h: StrJoin(kind.__self__, mem(h))
    if not isinstance(kind, str):
        s = Seq(mem.count, mem)
        n, i, c, val, skipped = seq.generic_map(interp, s, lambda x: interp.call(kind, [x], {}))
        return val
    raise Unsupported(f"aggregation {kind}")


class Union(Sym):
    """union of the geometries of a group."""

    def __init__(self, mem):
        self.mem = mem

    def _subst(self, p):
        return Union(subst(self.mem, p))

    def _equal(self, o):
        return equal(self.mem, o.mem) if isinstance(o, Union) else z3.BoolVal(False)


class WMean(Sym):
    """weighted mean of a sequence of values."""

    def __init__(self, vals, wts):
        self.vals, self.wts = vals, wts

    def _subst(self, p):
        return WMean(subst(self.vals, p), subst(self.wts, p))

    def _ite(self, c, o, rev):
        return NotImplemented

    def missing(self):
        """a value is missing: the mean is not a number."""
        q = gvar("q")
        x = maybe(self.vals.get(q)).null
        if z3.is_false(z3.simplify(x)):
            return z3.BoolVal(False)
        N = fresh_fn("wmean_isnan", B)()
        put(N == z3.Not(z3.ForAll([q], z3.Implies(rng(q, self.vals.n), z3.Not(x)))))
        return N


class SecondsOf(Sym):
    """timedelta(seconds=x) of a structured mean."""

    def __init__(self, x):
        self.x = x

    def _subst(self, p):
        return SecondsOf(subst(self.x, p))


_td = MODELS.get(timedelta)


@model(timedelta)
def _(interp, args, kw):
    if not args and set(kw) == {"seconds"} and isinstance(kw["seconds"], WMean):
        if core.decide(kw["seconds"].missing()):
            raise SymRaise(ValueError("cannot convert float NaN to integer"))
        return SecondsOf(kw["seconds"])
    if not args and set(kw) == {"seconds"} and isinstance(kw["seconds"], Maybe):
        x = kw["seconds"]
        if core.decide(x.null):
            raise SymRaise(ValueError("cannot convert float NaN to integer"))
        return interp.call(timedelta, [], {"seconds": x.val})
    return _td(interp, args, kw) if _td else NotImplemented


_isna = MODELS[pd.isna]


@model(pd.isna, pd.isnull)
def _(interp, args, kw):
    if isinstance(args[0], WMean):
        return mkb(args[0].missing())
    return _isna(interp, args, kw)


@model(np.average)
def _(interp, args, kw):
    if isinstance(args[0], Seq) and set(kw) == {"weights"} and isinstance(kw["weights"], Seq) and len(args) == 1:
        ctx.trust("numpy average: the weighted mean of values and weights of equal length")
        core.oblig("as many weights as values", kw["weights"].n == args[0].n)
        return WMean(args[0], kw["weights"])
    if is_sym(args):
        raise Unsupported("average")
    return NotImplemented


def _dissolve(interp, fr, args, kw):
    names = ("by", "aggfunc")
    d = dict(zip(names, args))
    d.update(kw)
    if set(d) - set(names) or not isinstance(d.get("by"), str):
        raise Unsupported("dissolve options")
    by, agg = d["by"], d.get("aggfunc", "first")
    if not isinstance(agg, dict):
        agg = {k: agg for k in fr.cols if k not in (by, "geometry")}
    g = Grouping(fr.n, fr.cols[by])

    class mem_of:
        def __init__(self, c):
            self.c, self.count = c, g.m

        def __call__(self, h):
            rows = lambda j: g.row(h, zi(j))
            return Members(g.size(h), lambda j: self.c(rows(j)), Labels(g.size(h), rows, fr))
    cols, aggs = {}, {}
    for k, kind in agg.items():
        if k not in fr.cols:
            raise SymRaise(KeyError(k))
        mem = mem_of(fr.cols[k])
        if isinstance(kind, (list, tuple)):
            raise Unsupported("several aggregations")
        f = aggregate(interp, kind, mem)
        cols[k] = f
        aggs[k] = (kind if isinstance(kind, str) else "f", mem, f)
    if "geometry" in fr.cols:
        mem = mem_of(fr.cols["geometry"])
        cols["geometry"] = lambda h: Union(mem(h))
    r = TFrame(g.m, cols, "key")
    r.key = (by, g.key)
    r.groups, r.aggs = g, aggs
    r.base = fr._clone(index=fr.index_)
    return r


METHOD_MODELS[(TFrame, "dissolve")] = _dissolve


# ------------------------------------------------------------------ concatenation
class CFrame(Sym):
    """concatenation of the tables inner(0..outer_n)."""

    def __init__(self, outer_n, inner, index=None):
        self.outer_n, self.inner, self.index_ = outer_n, inner, index

    def _subst(self, p):
        return CFrame(z3.substitute(self.outer_n, *p), lambda j: seq._late(self.inner, j, p), self.index_)

    def reset_index(self, drop=False):
        if not drop:
            raise Unsupported("index kept")
        return CFrame(self.outer_n, self.inner, "range")


_concat = MODELS.get(pd.concat)


@model(pd.concat)
def _(interp, args, kw):
    x = args[0]
    if isinstance(x, Seq) and not isinstance(x, FSeq) and set(kw) <= {"ignore_index"}:
        if isinstance(x.get(gvar("z")), TFrame):
            ctx.trust("pandas concat: the rows of the tables one after another")
            return CFrame(x.n, x.get, "range" if kw.get("ignore_index") else None)
    return _concat(interp, args, kw) if _concat else NotImplemented


# ------------------------------------------------------------------ joins
def _merge_asof(interp, args, kw):
    l, r = args[0], args[1]
    if not isinstance(l, TFrame):
        return NotImplemented
    if set(kw) - {"by", "left_on", "right_on", "direction", "on"} or not isinstance(kw.get("by"), str):
        raise Unsupported("merge_asof options")
    lo, ro = kw.get("left_on", kw.get("on")), kw.get("right_on", kw.get("on"))
    by, d = kw["by"], kw.get("direction", "backward")
    if d not in ("forward", "backward"):
        raise Unsupported("merge_asof direction")
    a, b = l.cols[lo], r.cols[ro]
    i, j = gvar("x"), gvar("y")
    core.oblig("merge_asof: left table sorted by its key", z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < l.n), zb(a(i) <= a(j)))))
    core.oblig("merge_asof: right table sorted by its key", z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < r.n), zb(b(i) <= b(j)))))
    M, N = fresh_fn("asof", I, I), fresh_fn("asof_none", I, B)
    ctx.trust("pandas merge_asof: every left row once, in order, with the nearest right row of the same 'by' value in the given direction (equal keys match), or none")
    ok = lambda x, y: z3.And(equal(l.cols[by](x), r.cols[by](y)), zb(a(x) <= b(y)) if d == "forward" else zb(b(y) <= a(x)))
    put(z3.ForAll([i], z3.Implies(z3.And(rng(i, l.n), z3.Not(N(i))), z3.And(rng(M(i), r.n), ok(i, M(i)))), patterns=[M(i)]))
    best = (lambda x, y: zb(b(M(x)) <= b(y))) if d == "forward" else (lambda x, y: zb(b(y) <= b(M(x))))
    put(z3.ForAll([i, j], z3.Implies(z3.And(rng(i, l.n), rng(j, r.n), ok(i, j)), z3.And(z3.Not(N(i)), best(i, j)))))
    cols = {}
    for k, c in l.cols.items():
        cols[k if k == by or k not in r.cols else k + "_x"] = c
    for k, c in r.cols.items():
        if k != by:
            cols[k if k not in l.cols else k + "_y"] = lambda q, c=c: Maybe(N(q), c(M(q)))
    f = TFrame(l.n, cols, "range")
    f.match = (M, N)
    for x in ("perm", "inv", "base"):
        if hasattr(l, x):
            setattr(f, x, getattr(l, x))
    f.right = r
    return f


MODELS[pd.merge_asof] = _merge_asof
_gdf = MODELS[gpd.GeoDataFrame]


@model(gpd.GeoDataFrame, pd.DataFrame)
def _(interp, args, kw):
    if args and isinstance(args[0], TFrame):
        return args[0]._clone(index=args[0].index_)
    return _gdf(interp, args, kw)


def _sjoin(interp, fr, args, kw):
    d = dict(zip(("right", "how", "predicate"), args))
    d.update(kw)
    r = d.get("right", d.get("df"))
    if d.get("how", "inner") != "inner" or set(d) - {"right", "df", "how", "predicate"} or not isinstance(r, TFrame):
        raise Unsupported("sjoin options")
    n = fresh_fn("joined", I)()
    Lf, Rf, Jf = fresh_fn("jleft", I, I), fresh_fn("jright", I, I), fresh_fn("jrow", I, I, I)
    rel = z3.Function("rel_" + d.get("predicate", "intersects"), I, I, B)
    i, a, b = gvar("x"), gvar("y"), gvar("w")
    ctx.trust("geopandas sjoin (inner): exactly one row per pair of rows related by the predicate, with the columns of both")
    put(n >= 0)
    ga, gb = fr.cols["geometry"], r.cols["geometry"]
    pid = lambda c, k: c(k).e
    put(z3.ForAll([i], z3.Implies(rng(i, n), z3.And(rng(Lf(i), fr.n), rng(Rf(i), r.n), rel(pid(ga, Lf(i)), pid(gb, Rf(i))), Jf(Lf(i), Rf(i)) == i)), patterns=[Lf(i)]))
    put(z3.ForAll([a, b], z3.Implies(z3.And(rng(a, fr.n), rng(b, r.n), rel(pid(ga, a), pid(gb, b))), z3.And(rng(Jf(a, b), n), Lf(Jf(a, b)) == a, Rf(Jf(a, b)) == b)), patterns=[Jf(a, b)]))
    cols = {k: (lambda q, c=c: c(Lf(q))) for k, c in fr.cols.items()}
    for k, c in r.cols.items():
        if k == "geometry":
            continue
        if k in cols:
            cols[k + "_left"] = cols.pop(k)
            cols[k + "_right"] = lambda q, c=c: c(Rf(q))
        else:
            cols[k] = lambda q, c=c: c(Rf(q))
    f = TFrame(n, cols, None)
    f.join = (n, Lf, Rf, Jf, rel)
    fr.last_join = f.join
    return f


METHOD_MODELS[(TFrame, "sjoin")] = _sjoin
