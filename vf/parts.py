"""Collections of polygons as sequences of abstract pieces. A piece is an integer naming a polygon value; what the contracts say of
it are predicates over that integer, among them COV: "covers the point p", for one arbitrary point p of the globe, in the reading
of the coordinates in which points beyond +-180 degrees of longitude and beyond a pole stand for the points reached that way."""
import numpy as np
import z3
from shapely import geometry as geo
from shapely import ops as _ops
from . import core, seq
from .core import Sym, Num, Unsupported, ctx, equal, zr
from .seq import Seq, FSeq, FlatSeq, CatSeq, zi
from .interp import MODELS, CONTRACTS, is_sym
from .tables import fresh_fn

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
COV = z3.Function("covers_p", I, B)
LONOK = z3.Function("longitudes_in_range", I, B)        # -180..180
N_OK, S_OK = z3.Function("not_beyond_north", I, B), z3.Function("not_beyond_south", I, B)
N_BEY, S_BEY = z3.Function("all_beyond_north", I, B), z3.Function("all_beyond_south", I, B)
ONE = z3.Function("one_side_of_prime_meridian", I, B)
PX, PY, PN = z3.Function("piece_x", I, I, R), z3.Function("piece_y", I, I, R), z3.Function("piece_n", I, I)
KIND = z3.Function("piece_kind", I, I)                  # of members of mixed collections: 0 polygon, 1 multi-polygon, else points and lines
MG, MN = z3.Function("member_part", I, I, I), z3.Function("member_parts", I, I)
VALIDP = z3.Function("piece_valid", I, B)


def ids(p):
    return p.id


class Part(Sym):
    """a polygon by name."""

    def __init__(self, id):
        self.id = zi(id)

    def _isinstance(self, c):
        return c is geo.Polygon

    def _subst(self, p):
        return Part(z3.substitute(self.id, *p))

    def _ite(self, c, o, rev):
        if not isinstance(o, Part):
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        return Part(z3.If(c, a.id, b.id))

    def _equal(self, o):
        return self.id == o.id if isinstance(o, Part) else z3.BoolVal(False)

    def __eq__(self, o):
        return core.mkb(self._equal(o))

    def __ne__(self, o):
        return core.mkb(z3.Not(self._equal(o)))

    __hash__ = None

    @property
    def exterior(self):
        from props.P20 import Ring
        e = self.id
        return Ring(Seq(PN(e), lambda j: (Num(PX(e, j)), Num(PY(e, j)))))

    @property
    def is_valid(self):
        return core.mkb(VALIDP(self.id))

    def crosses(self, line):
        from props.P20 import Line
        if not isinstance(line, Line) and not isinstance(line, geo.LineString):
            raise Unsupported("crosses another geometry")
        tag = line_of(line)
        if tag not in ("prime north", "prime south"):
            raise Unsupported("crosses another line")
        ctx.trust("shapely crosses: a polygon beyond a pole that does not cross the prime meridian there lies on one side of it")
        X = z3.Function("crosses_" + tag.replace(" ", "_"), I, B)(self.id)
        bey = N_BEY if tag.endswith("north") else S_BEY
        core.assume(z3.Implies(z3.And(bey(self.id), z3.Not(X)), ONE(self.id)))
        return core.mkb(X)


class Item(Part):
    """member of a mixed collection, of any kind."""

    def _isinstance(self, c):
        return core.decide(KIND(self.id) == {geo.Polygon: 0, geo.MultiPolygon: 1}[c]) if c in (geo.Polygon, geo.MultiPolygon) else False

    def _subst(self, p):
        return Item(z3.substitute(self.id, *p))

    def _ite(self, c, o, rev):
        if not isinstance(o, Part):
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        return Item(z3.If(c, a.id, b.id))

    @property
    def geoms(self):
        e = self.id
        return Seq(MN(e), lambda k: Part(MG(e, k)))


class Either(Part):
    """what a function that takes a polygon gives: a polygon or a multi-polygon."""

    def _isinstance(self, c):
        return core.decide(KIND(self.id) == {geo.Polygon: 0, geo.MultiPolygon: 1}[c]) if c in (geo.Polygon, geo.MultiPolygon) else False

    _subst = lambda self, p: Either(z3.substitute(self.id, *p))
    geoms = Item.geoms
    __hash__ = None


def line_of(line):
    """which of the lines the contracts know."""
    pts = list(line.coords) if isinstance(line, geo.LineString) else line.pts
    try:
        (x0, y0), (x1, y1) = [tuple(float(t if not isinstance(t, Num) else core.const_of(t.e)) for t in p) for p in pts]
    except Exception:
        return None
    if x0 == x1 == 0 and min(y0, y1) == 90 and max(y0, y1) >= 180:
        return "prime north"
    if x0 == x1 == 0 and max(y0, y1) == -90 and min(y0, y1) <= -180:
        return "prime south"
    if y0 == y1 and abs(y0) == 90 and min(x0, x1) <= -180 and max(x0, x1) >= 180:
        return "north" if y0 > 0 else "south"
    return None


class GColl(Sym):
    """a collection (or multi-polygon) of pieces."""

    def __init__(self, geoms, kind=geo.GeometryCollection):
        self.geoms, self.kind = geoms, kind

    def _isinstance(self, c):
        return c is self.kind

    def _subst(self, p):
        return GColl(core.subst(self.geoms, p), self.kind)

    @property
    def is_valid(self):
        return core.mkb(z3.Bool("pieces_valid"))


def split_along(p, line):
    """shapely split (assumed): pieces that cover what the polygon covers, each on one side of the line."""
    tag = line_of(line)
    if tag is None:
        raise Unsupported("split along another line")
    ctx.trust("shapely split: the pieces together cover what the polygon covers (up to boundaries), each within it and on one side of the line")
    nm = tag.replace(" ", "_")
    S, N, W = z3.Function("cut_" + nm, I, I, I), z3.Function("cuts_" + nm, I, I), z3.Function("cut_covering_" + nm, I, I)
    e, k = p.id, z3.Int("ck")
    s = S(e, k)
    keep = [z3.Implies(f(e), f(s)) for f in (LONOK, N_OK, S_OK, N_BEY, S_BEY, ONE)]
    if tag in ("north", "south"):
        keep.append(z3.Or((N_OK if tag == "north" else S_OK)(s), (N_BEY if tag == "north" else S_BEY)(s)))
    else:
        keep.append(z3.Implies((N_BEY if tag == "prime north" else S_BEY)(e), ONE(s)))
    core.assume(z3.And(N(e) >= 1, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N(e)), z3.And(z3.Implies(COV(s), COV(e)), *keep)), patterns=[s])))
    core.assume(z3.Implies(COV(e), z3.And(W(e) >= 0, W(e) < N(e), COV(S(e, W(e))))))
    WITNESS.append(W(e))
    r = GColl(Seq(N(e), lambda k: Part(S(e, k))))
    r.cut = tag
    return r


WITNESS = []


def places(s, cands):
    """indices at which an element built from a base index among cands may stand in s."""
    if isinstance(s, CatSeq):
        out, off = [], z3.IntVal(0)
        for p in s.parts:
            if isinstance(p, list):
                out += [off + q for q in range(len(p))]
                off = off + len(p)
            else:
                out += [off + q for q in places(p, cands)]
                off = off + p.n
        return out
    if isinstance(s, FSeq):
        s._ensure()
        return [s.rank(c) for c in cands]
    if isinstance(s, FlatSeq):
        s._ensure()
        out = []
        for c in cands:
            out += [s.r(c, d) for d in places(s.inner(c), cands)] + [s.r(c, z3.IntVal(0))]
        return out
    c = s.concrete_len()
    return [z3.IntVal(q) for q in range(c)] if c is not None and c <= 4 else list(cands)


def covers(s, cands, pred=None):
    """some piece of s covers p: at one of the candidate places."""
    pred = pred or (lambda x: COV(x.id))
    if isinstance(s, list):
        return z3.Or(*[pred(x) for x in s]) if s else z3.BoolVal(False)
    return z3.Or(*[z3.And(q >= 0, q < s.n, pred(s.get(q))) for q in places(s, cands)])


def pieces(x):
    """sequence of polygons of a result."""
    if isinstance(x, (GColl,)) or hasattr(x, "geoms") and not isinstance(x, Part):
        g = x.geoms
        return seq.of_list(g) if isinstance(g, list) else g
    return seq.of_list([x])
