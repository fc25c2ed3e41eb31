"""Assumed contracts of datetime, sgp4 and skyfield over symbolic values.

Times are reals (seconds since 1970 UTC); microsecond rounding of datetime is not modelled (stated assumption).
"""
import ast, copy, operator
from datetime import datetime, timedelta, timezone, time as dtime
from fractions import Fraction
import numpy as np
import z3
from . import core, seq
from .core import (Sym, Num, SBool, Case, Unsupported, SymRaise, ctx, zb, zn, zr, mkb, mkn, ite, subst, assume, equal, fresh)
from .interp import MODELS, METHOD_MODELS, CLASS_MODELS, CONTRACTS, model, is_sym, exact, native, SObj, lambda_model
from .seq import Seq, FSeq, of_list, zi
from .models import vec_apply, anysym

EPOCH0 = datetime(1970, 1, 1, tzinfo=timezone.utc)


def td_secs(d):
    return Fraction(d.days * 86400 + d.seconds) + Fraction(d.microseconds, 10**6)


def dt_secs(t):
    if t.tzinfo is None:
        t = t.replace(tzinfo=timezone.utc)
    return td_secs(t - EPOCH0)


class SDelta(Sym):
    def __init__(self, e):
        self.e = e if isinstance(e, z3.ExprRef) else zr(e)

    # the normalised fields of timedelta
    @property
    def days(self):
        return Num(z3.ToInt(self.e / 86400))

    @property
    def seconds(self):
        return Num(z3.ToInt(self.e) - 86400 * z3.ToInt(self.e / 86400))

    @property
    def microseconds(self):
        return Num(z3.ToInt((self.e - z3.ToReal(z3.ToInt(self.e))) * 1000000))

    def num(self):
        return mkn(self.e)

    @staticmethod
    def of(x):
        if isinstance(x, SDelta):
            return x
        if isinstance(x, (timedelta, np.timedelta64)):
            if isinstance(x, np.timedelta64):
                x = x.astype("timedelta64[us]").item()
            return SDelta(core.rv(td_secs(x)))
        return None

    def _b(self, o, f):
        o = SDelta.of(o)
        if o is None:
            return NotImplemented
        return f(self.e, o.e)

    def __add__(self, o):
        if isinstance(o, (STime, datetime)):
            return STime.of(o) + self
        if isinstance(o, Seq):
            return o._vop(self, lambda a, b: a + b)
        r = self._b(o, lambda a, b: a + b)
        return r if r is NotImplemented else SDelta(r)

    def __radd__(self, o):
        if isinstance(o, (int, Fraction)) and o == 0:
            return self
        return self.__add__(o)

    def __sub__(self, o):
        r = self._b(o, lambda a, b: a - b)
        return r if r is NotImplemented else SDelta(r)

    def __rsub__(self, o):
        if isinstance(o, datetime):
            return STime.of(o) - self
        r = self._b(o, lambda a, b: b - a)
        return r if r is NotImplemented else SDelta(r)

    def __mul__(self, o):
        if isinstance(o, Seq):
            return o._vop(self, lambda a, b: b * a)
        return SDelta(zr(Num(self.e) * o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        d = SDelta.of(o)
        if d is not None:
            return Num(core.div(self.e, d.e))
        return SDelta(core.div(self.e, zr(o)))

    def __rtruediv__(self, o):
        d = SDelta.of(o)
        if d is None:
            return NotImplemented
        return Num(core.div(d.e, self.e))

    def __floordiv__(self, o):
        d = SDelta.of(o)
        if d is not None:
            return Num(z3.ToInt(core.div(self.e, d.e)))
        raise Unsupported("timedelta // number")

    def __mod__(self, o):
        d = SDelta.of(o)
        if d is None:
            return NotImplemented
        return SDelta(core.mod(Num(self.e), Num(d.e)).e)

    def __rmod__(self, o):
        return SDelta.of(o) % self

    def __neg__(self):
        return SDelta(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SDelta(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f):
        d = SDelta.of(o)
        if d is None:
            return NotImplemented
        return mkb(f(self.e, d.e))

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __eq__(self, o):
        return (NotImplemented if isinstance(o, Sym) else False) if SDelta.of(o) is None else self._cmp(o, operator.eq)

    def __ne__(self, o):
        return (NotImplemented if isinstance(o, Sym) else True) if SDelta.of(o) is None else self._cmp(o, operator.ne)

    __hash__ = object.__hash__

    def total_seconds(self):
        return Num(self.e)

    @property
    def days(self):
        return Num(z3.ToInt(self.e / 86400))

    def _truth(self):
        return self.e != 0

    def _subst(self, p):
        return SDelta(z3.substitute(self.e, *p))

    def _ite(self, c, o, rev):
        d = SDelta.of(o)
        if d is None:
            return NotImplemented
        a, b = (d, self) if rev else (self, d)
        return SDelta(z3.If(c, a.e, b.e))

    def _equal(self, o):
        d = SDelta.of(o)
        return z3.BoolVal(False) if d is None else self.e == d.e

    def _isinstance(self, c):
        return c is timedelta

    def __repr__(self):
        return f"SDelta({self.e})"


class STime(Sym):
    """aware UTC datetime."""

    def __init__(self, e):
        self.e = e if isinstance(e, z3.ExprRef) else zr(e)

    tzinfo = timezone.utc

    @staticmethod
    def of(x):
        if isinstance(x, STime):
            return x
        if isinstance(x, datetime):
            return STime(core.rv(dt_secs(x)))
        return None

    def __add__(self, o):
        if isinstance(o, Seq):
            return o._vop(self, lambda a, b: b + a)
        d = SDelta.of(o)
        return NotImplemented if d is None else STime(self.e + d.e)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Seq):
            return o._vop(self, lambda a, b: b - a)
        t = STime.of(o)
        if t is not None:
            return SDelta(self.e - t.e)
        d = SDelta.of(o)
        return NotImplemented if d is None else STime(self.e - d.e)

    def __rsub__(self, o):
        t = STime.of(o)
        return NotImplemented if t is None else SDelta(t.e - self.e)

    def _cmp(self, o, f):
        t = STime.of(o)
        if t is None:
            return NotImplemented
        return mkb(f(self.e, t.e))

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __eq__(self, o):
        return (NotImplemented if isinstance(o, Sym) else False) if STime.of(o) is None else self._cmp(o, operator.eq)

    def __ne__(self, o):
        return (NotImplemented if isinstance(o, Sym) else True) if STime.of(o) is None else self._cmp(o, operator.ne)

    __hash__ = object.__hash__

    def replace(self, tzinfo=None, **k):
        if k:
            raise Unsupported("datetime.replace")
        return self

    def astimezone(self, *a, **k):
        return self

    def timestamp(self):
        return Num(self.e)

    def _subst(self, p):
        return STime(z3.substitute(self.e, *p))

    def _ite(self, c, o, rev):
        d = STime.of(o)
        if d is None:
            return NotImplemented
        a, b = (d, self) if rev else (self, d)
        return STime(z3.If(c, a.e, b.e))

    def _equal(self, o):
        d = STime.of(o)
        return z3.BoolVal(False) if d is None else self.e == d.e

    def _isinstance(self, c):
        return c is datetime

    def __repr__(self):
        return f"STime({self.e})"


def stime(v, name):
    e = z3.Real(name)
    v.inputs[name] = e
    return STime(e)


def sdelta(v, name, **b):
    x = v.real(name, **b)
    return SDelta(x.e)


_UNIT = dict(days=86400, seconds=1, microseconds=Fraction(1, 10**6), milliseconds=Fraction(1, 1000), minutes=60, hours=3600, weeks=604800)


@model(timedelta)
def _(interp, args, kw):
    if not anysym(args, kw):
        return NotImplemented
    t = 0
    for n, v in list(zip(("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"), args)) + list(kw.items()):
        t = t + (v if isinstance(v, Sym) else exact(v)) * _UNIT[n]
    ctx.trust("timedelta arithmetic is exact (microsecond rounding not modelled)")
    return SDelta(zr(t))


# ---------------------------------------------------------------- sgp4
class Satrec_(Sym):
    """Satrec with symbolic elements (radians, minutes)."""
    F = ("epoch", "bstar", "ndot", "nddot", "ecco", "argpo", "inclo", "mo", "no_kozai", "nodeo")

    def __init__(self, vals=None):
        self.vals = dict(vals or {})
        ctx.born(self)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        v = self.__dict__.get("vals", {})
        if k in v:
            return v[k]
        raise Unsupported(f"Satrec.{k}")

    def sgp4init(self, whichconst, opsmode, satnum, epoch, bstar, ndot, nddot, ecco, argpo, inclo, mo, no_kozai, nodeo):
        old = dict(self.vals)
        ctx.note_mut(self, lambda: (self.vals.clear(), self.vals.update(old)))
        ctx.trust("sgp4: sgp4init stores the given elements; export_tle/twoline2rv carry them at their standard columns")
        self.vals.update(epoch=epoch, bstar=bstar, ndot=ndot, nddot=nddot, ecco=ecco, argpo=argpo, inclo=inclo, mo=mo,
                         no_kozai=no_kozai, nodeo=nodeo, satnum=satnum)

    def _subst(self, p):
        return Satrec_({k: subst(v, p) for k, v in self.vals.items()})

    def _ite(self, c, o, rev):
        if isinstance(o, Satrec_) and set(o.vals) == set(self.vals):
            a, b = (o, self) if rev else (self, o)
            return Satrec_({k: ite(c, a.vals[k], b.vals[k]) for k in a.vals})
        return NotImplemented

    def epoch_time(self):
        return STime(zr(self.vals["epoch"] * 86400 + dt_secs(datetime(1949, 12, 31, tzinfo=timezone.utc))))


class SLine(Sym):
    """Line number k of an element set exported from / parsed into rec."""

    def __init__(self, rec, k):
        self.rec, self.k = rec, k

    def replace(self, a, b):
        return self

    def _isinstance(self, c):
        return c is str

    def _subst(self, p):
        return SLine(subst(self.rec, p), self.k)

    def _ite(self, c, o, rev):
        if isinstance(o, SLine) and o.k == self.k:
            return SLine(ite(c, o.rec if rev else self.rec, self.rec if rev else o.rec), self.k)
        return NotImplemented

    def strip(self):
        return self

    def _len(self):
        return 69


def _install_sgp4():
    from sgp4.api import Satrec
    from sgp4 import exporter
    from sgp4.conveniences import sat_epoch_datetime

    CLASS_MODELS[Satrec] = lambda interp, args, kw: Satrec_() if SYM_SGP4[0] else NotImplemented

    @model(Satrec.twoline2rv)
    def _(interp, args, kw):
        a = args[0]
        if isinstance(a, SLine):
            b = args[1]
            if not (isinstance(b, SLine) and a.k == 1 and b.k == 2):
                raise SymRaise(ValueError("lines out of place"))
            if b.rec is not a.rec:
                # lines of the same set?
                core.oblig("both lines belong to the same element set", z3.And(*[equal(a.rec.vals[k], b.rec.vals[k]) for k in a.rec.vals]))
            return a.rec
        if isinstance(a, Sym):
            raise Unsupported("twoline2rv")
        return NotImplemented

    @model(exporter.export_tle)
    def _(interp, args, kw):
        if isinstance(args[0], Satrec_):
            return (SLine(args[0], 1), SLine(args[0], 2))
        return NotImplemented

    @model(sat_epoch_datetime)
    def _(interp, args, kw):
        if isinstance(args[0], Satrec_):
            return args[0].epoch_time()
        return NotImplemented


SYM_SGP4 = [True]
_install_sgp4()


# ---------------------------------------------------------------- skyfield
class SkyTime(Sym):
    """skyfield Time: scalar (STime) or vector (Seq of STime)."""

    def __init__(self, t):
        self.t = t

    @property
    def vector(self):
        return isinstance(self.t, Seq)

    def utc_datetime(self):
        return self.t.as_vec() if self.vector else self.t

    def _len(self):
        if not self.vector:
            raise SymRaise(TypeError("scalar time"))
        return self.t.length()

    def _size(self):
        return self.t.length() if self.vector else 1

    def _getitem(self, interp, ix):
        if not self.vector:
            raise SymRaise(TypeError("scalar time"))
        r = self.t._getitem(interp, ix)
        return SkyTime(r)

    def _iter(self):
        if not self.vector:
            raise Unsupported("iterate scalar time")
        t = self.t
        if isinstance(t, FSeq):
            return t.map(SkyTime, False)
        return Seq(t.n, lambda j: SkyTime(t.get(j)))

    @property
    def shape(self):
        return (self.t.length(),) if self.vector else ()

    def _subst(self, p):
        return SkyTime(subst(self.t, p))

    def _ite(self, c, o, rev):
        if isinstance(o, SkyTime):
            return SkyTime(ite(c, o.t if rev else self.t, self.t if rev else o.t))
        return NotImplemented

    def _equal(self, o):
        return equal(self.t, o.t) if isinstance(o, SkyTime) else z3.BoolVal(False)

    def __sub__(self, o):
        if isinstance(o, SkyTime) and not self.vector and not o.vector:
            return (self.t - o.t) / timedelta(days=1)
        raise Unsupported("skyfield time difference")


def _install_timescale():
    from skyfield.timelib import Timescale

    def fd(interp, self_, args, kw):
        x = args[0]
        if isinstance(x, Case):
            x = x.resolve()
        if isinstance(x, STime):
            return SkyTime(x)
        if isinstance(x, Seq):
            return SkyTime(x)
        if is_sym(x):
            return SkyTime(of_list(interp.as_list(x)))
        return NotImplemented
    METHOD_MODELS[(Timescale, "from_datetime")] = fd
    METHOD_MODELS[(Timescale, "from_datetimes")] = fd


_install_timescale()


class SSat(Sym):
    """EarthSatellite of an element set."""

    def __init__(self, l1, l2):
        self.l1, self.l2 = l1, l2

    def at(self, t):
        return SGeo(self, t, t)

    def find_events(self, topos, t0, t1, altitude_degrees=0):
        return FIND_EVENTS[0](self, topos, t0, t1, altitude_degrees)

    def _subst(self, p):
        return SSat(subst(self.l1, p), subst(self.l2, p))

    def _equal(self, o):
        return z3.And(equal(self.l1, o.l1), equal(self.l2, o.l2)) if isinstance(o, SSat) else z3.BoolVal(False)

    def _ite(self, c, o, rev):
        if isinstance(o, SSat):
            a, b = (o, self) if rev else (self, o)
            return SSat(ite(c, a.l1, b.l1), ite(c, a.l2, b.l2))
        return NotImplemented


def _no_find(*a):
    raise Unsupported("find_events")


FIND_EVENTS = [_no_find]


class SGeo(Sym):
    """Geocentric state of satellite sat propagated to time t, stamped with time stamp."""

    def __init__(self, sat, t, stamp):
        self.sat, self._t, self.stamp = sat, t, stamp

    @property
    def t(self):
        return self.stamp

    @property
    def position(self):
        return SVec(self, "position")

    @property
    def velocity(self):
        return SVec(self, "velocity")

    def frame_xyz_and_velocity(self, frame):
        from skyfield.framelib import itrs
        if frame is not itrs:
            raise Unsupported("frame")
        return (SVec(self, "position", "itrs"), SVec(self, "velocity", "itrs"))

    def frame_xyz(self, frame):
        return self.frame_xyz_and_velocity(frame)[0]

    def _subst(self, p):
        return SGeo(subst(self.sat, p), subst(self._t, p), subst(self.stamp, p))

    def _equal(self, o):
        return z3.And(equal(self.sat, o.sat), equal(self._t, o._t), equal(self.stamp, o.stamp)) if isinstance(o, SGeo) else z3.BoolVal(False)

    def _ite(self, c, o, rev):
        if isinstance(o, SGeo):
            a, b = (o, self) if rev else (self, o)
            return SGeo(ite(c, a.sat, b.sat), ite(c, a._t, b._t), ite(c, a.stamp, b.stamp))
        return NotImplemented


class SVec(Sym):
    """position / velocity quantity of a state (opaque), in the inertial or a named frame."""

    def __init__(self, geo, kind, frame="gcrs"):
        self.geo, self.kind, self.frame = geo, kind, frame

    au = property(lambda s: SVal(s.geo, s.kind, s.frame, "au"))
    m = property(lambda s: SVal(s.geo, s.kind, s.frame, "m"))
    km = property(lambda s: SVal(s.geo, s.kind, s.frame, "km"))
    au_per_d = property(lambda s: SVal(s.geo, s.kind, s.frame, "au_per_d"))
    m_per_s = property(lambda s: SVal(s.geo, s.kind, s.frame, "m_per_s"))
    km_per_s = property(lambda s: SVal(s.geo, s.kind, s.frame, "km_per_s"))

    def _subst(self, p):
        return SVec(subst(self.geo, p), self.kind, self.frame)


class SVal(Sym):
    def __init__(self, geo, kind, frame="gcrs", unit="au", tr=False):
        self.geo, self.kind, self.frame, self.unit, self.tr = geo, kind, frame, unit, tr

    def _subst(self, p):
        return SVal(subst(self.geo, p), self.kind, self.frame, self.unit, self.tr)

    def tag(self):
        return (self.kind, self.frame, self.unit)

    def _equal(self, o):
        return z3.And(z3.BoolVal(self.tag() == o.tag()), equal(self.geo, o.geo)) if isinstance(o, SVal) else z3.BoolVal(False)

    @property
    def T(self):
        return SVal(self.geo, self.kind, self.frame, self.unit, not self.tr)

    def __sub__(self, o):
        if isinstance(o, SVal) and o.tag() == self.tag():
            # (n,3) - (3,): broadcast over times needs the transposed operand when this is a vector of states
            vec = isinstance(self.geo._t, SkyTime) and self.geo._t.vector
            ovec = isinstance(o.geo._t, SkyTime) and o.geo._t.vector
            if vec and not ovec and self.tr:
                return SDiff(self, o)
            if not vec and not ovec:
                return SDiff(self, o)
        raise Unsupported("difference of state vectors")


DIST = z3.Function("state_distance", z3.StringSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())


class SDiff(Sym):
    """difference of a (vector of) state(s) a and a single state b of the same satellite."""

    def __init__(self, a, b, tr=None):
        self.a, self.b = a, b
        self.tr = a.tr if tr is None else tr

    @property
    def T(self):
        return SDiff(self.a, self.b, not self.tr)

    def _norm(self, axis):
        vec = self.a.geo._t.vector
        core.oblig("both states are of one satellite", equal(self.a.geo.sat, self.b.geo.sat))
        tag = z3.StringVal("/".join(self.a.tag()))
        t0 = self.b.geo._t.t.e
        if not vec:
            return Num(DIST(tag, self.a.geo._t.t.e, t0))
        if axis != (1 if self.tr else 0):
            raise Unsupported("norm axis")
        t = self.a.geo._t.t
        f = lambda x: Num(DIST(tag, x.e, t0))
        return t.map(f, True) if isinstance(t, FSeq) else Seq(t.n, lambda j: f(t.get(j)), True)

    def _subst(self, p):
        return SDiff(subst(self.a, p), subst(self.b, p), self.tr)


def _install_sky():
    from skyfield.api import EarthSatellite
    from skyfield.positionlib import Geocentric

    CLASS_MODELS[EarthSatellite] = lambda interp, args, kw: SSat(args[0], args[1]) if anysym(args) else NotImplemented

    def geo(interp, args, kw):
        if not anysym(args, kw):
            return NotImplemented
        p, v, t = args[:3]
        if isinstance(p, SVal) and isinstance(v, SVal):
            core.oblig("position and velocity come from one propagation, in the right slots and units",
                       z3.And(z3.BoolVal(p.tag() == ("position", "gcrs", "au") and v.tag() == ("velocity", "gcrs", "au_per_d") and not p.tr and not v.tr), equal(p.geo, v.geo)))
            return SGeo(p.geo.sat, p.geo._t, t)
        if isinstance(p, Seq) and isinstance(v, Seq):
            # list of scalar states
            k = seq.gvar("g")
            a, b = p.get(k), v.get(k)
            if not (isinstance(a, SVal) and isinstance(b, SVal) and a.tag() == ("position", "gcrs", "au") and b.tag() == ("velocity", "gcrs", "au_per_d")):
                raise Unsupported("Geocentric of unknown vectors")
            core.oblig("position and velocity come from one propagation", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < p.n), equal(a.geo, b.geo))))
            return SGeoList(p, t)
        raise Unsupported("Geocentric")
    CLASS_MODELS[Geocentric] = geo


class SGeoList(Sym):
    """states built one by one: element j = p.get(j).geo, stamped stamp[j]."""

    def __init__(self, p, stamp):
        self.p, self.stamp = p, stamp

    def state(self, j):
        return self.p.get(j).geo


_install_sky()


class SSub(Sym):
    """ground point below a state."""

    def __init__(self, geo):
        self.geo = geo

    def _subst(self, p):
        return SSub(subst(self.geo, p))


class STopos(Sym):
    """wgs84.latlon(...): only what it was built from."""

    def __init__(self, args):
        self.args = args

    def _subst(self, p):
        return STopos(subst(self.args, p))


def _install_geoid():
    from skyfield.toposlib import Geoid

    def latlon(interp, self_, args, kw):
        if not anysym(args, kw):
            return NotImplemented
        a = list(args) + [0] * (3 - len(args))
        for i, nm in enumerate(("latitude_degrees", "longitude_degrees", "elevation_m")):
            if nm in kw:
                a[i] = kw[nm]
        return STopos(tuple(a))
    METHOD_MODELS[(Geoid, "latlon")] = latlon

    def sub(interp, self_, args, kw):
        return SSub(args[0]) if isinstance(args[0], SGeo) else NotImplemented
    METHOD_MODELS[(Geoid, "subpoint_of")] = sub
    METHOD_MODELS[(Geoid, "subpoint")] = sub


_install_geoid()
