"""Symbolic stand-ins for the pandas objects used by the analysis functions (assumed contracts of pandas)."""
import ast, builtins
from datetime import datetime, timedelta
from fractions import Fraction
import numpy as np
import pandas as pd
import z3
from . import core, seq
from .core import Sym, Num, SBool, Unsupported, SymRaise, ctx, zb, mkb, subst, equal, assume, ite
from .seq import Seq, FSeq, CatSeq, zi
from .interp import MODELS, METHOD_MODELS, model, is_sym
from .tmodel import STime, SDelta, SkyTime


class SInterval(Sym):
    """pandas Interval of times."""

    def __init__(self, left, right):
        self.left, self.right = left, right

    @property
    def length(self):
        return self.right - self.left

    @property
    def mid(self):
        return self.left + (self.right - self.left) / 2

    def _subst(self, p):
        return SInterval(subst(self.left, p), subst(self.right, p))

    def _equal(self, o):
        return z3.And(equal(self.left, o.left), equal(self.right, o.right)) if isinstance(o, SInterval) else z3.BoolVal(False)

    def _ite(self, c, o, rev):
        if isinstance(o, SInterval):
            a, b = (o, self) if rev else (self, o)
            return SInterval(ite(c, a.left, b.left), ite(c, a.right, b.right))
        return NotImplemented


@model(pd.Timestamp)
def _(interp, args, kw):
    x = args[0] if args else None
    if isinstance(x, SkyTime):
        raise Unsupported("Timestamp of a skyfield time")
    if isinstance(x, STime):
        if kw:
            raise Unsupported("Timestamp options")
        return x
    return NotImplemented


@model(pd.Interval)
def _(interp, args, kw):
    a = list(args) + [kw[k] for k in ("left", "right")[len(args):] if k in kw]
    if not is_sym(a):
        return NotImplemented
    if len(a) != 2 or set(kw) - {"left", "right"} or not all(isinstance(x, STime) for x in a):
        raise Unsupported("interval")
    ctx.trust("pandas: Interval holds its ends; mid is the mean of the ends; left after right raises ValueError")
    if not core.decide(zb(a[0] <= a[1])):
        raise SymRaise(ValueError("left side of interval must be <= right side"))
    return SInterval(a[0], a[1])


@model(pd.Series)
def _(interp, args, kw):
    x = args[0] if args else kw.get("data")
    if isinstance(x, Seq) or isinstance(x, list) and any(isinstance(y, Sym) for y in x):
        if set(kw) - {"data", "dtype"}:
            raise Unsupported("Series options")
        return x
    return NotImplemented


# ---------------------------------------------------------------- tables
class SFrame(Sym):
    """A table: rows (sequence of records) and columns added later, as assumed of geopandas."""

    def __init__(self, rows, cols=None, order=None):
        self.rows, self.cols, self.order = rows, dict(cols or {}), order

    def _subst(self, p):
        return SFrame(subst(self.rows, p), {k: subst(v, p) for k, v in self.cols.items()}, self.order)

    def _col(self, name):
        if name in self.cols:
            return self.cols[name]
        r = self.rows
        if isinstance(r, list):
            return [x[name] for x in r]
        if isinstance(r, FSeq):
            return r.map(lambda x: x[name], True)
        return Seq(r.n, lambda j: r.get(j)[name], True)

    def _getitem(self, interp, ix):
        if isinstance(ix, str):
            return self._col(ix)
        raise Unsupported("table selection")

    def _setitem(self, interp, ix, v):
        if not isinstance(ix, str):
            raise Unsupported("table assignment")
        self.cols[ix] = v

    def _len(self):
        return len(self.rows) if isinstance(self.rows, list) else self.rows.length()

    @property
    def empty(self):
        return mkb(self.rows.n <= 0) if isinstance(self.rows, Seq) else not self.rows

    def __getattr__(self, name):
        if name.startswith("_") or name in ("rows", "cols", "order"):
            raise AttributeError(name)
        return self._col(name)

    def sort_values(self, by, **kw):
        if kw or not isinstance(by, str):
            raise Unsupported("sort options")
        if self.cols:
            raise Unsupported("sort after added columns")
        return SFrame(self.rows, None, by)

    def reset_index(self, drop=False):
        if drop is not True:
            raise Unsupported("index kept")
        return self


@model(*([__import__("geopandas").GeoDataFrame, pd.DataFrame]))
def _(interp, args, kw):
    x = args[0] if args else kw.get("data")
    if isinstance(x, (Seq, list)) and is_sym(x) or isinstance(x, Seq):
        if set(kw) - {"crs", "data"}:
            raise Unsupported("table options")
        ctx.trust("geopandas: a table built from a list of records has one row per record, in order")
        return SFrame(x)
    return NotImplemented
