"""Symbolic text: views of lines of a list of strings, as character codes."""
import re, ast
try:
    from re import _parser as sre_parse, _constants as sre
except ImportError:
    import sre_parse, sre_constants as sre
import z3
from . import core, seq
from .core import Sym, Num, SBool, Unsupported, SymRaise, ctx, zb, mkb, decide, subst, equal, assume
from .interp import MODELS, METHOD_MODELS, model, is_sym
from .models import SText

I = z3.IntSort()
CH = z3.Function("char", I, I, I)
LEN = z3.Function("line_length", I, I)
ISDIG = z3.Function("other_digit", I, z3.BoolSort())
DIGVAL = z3.Function("other_digit_value", I, I)
INTV = z3.Function("int_value", I, I, I, I)  # line, first column, one past last column
FLTV = z3.Function("float_value", I, I, I, z3.RealSort())
DECV = z3.Function("decimal_fraction_value", I, I, I, z3.RealSort())  # 0.<columns>
ISNUM = z3.Function("all_digits", I, I, I, z3.BoolSort())


def digit(c):
    return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c > 127, ISDIG(c)))


def known_len(j):
    """length fixed by the path condition, if it is."""
    L = z3.simplify(LEN(j))
    for f in ctx.formulas():
        while z3.is_not(f) and z3.is_not(f.arg(0)):
            f = f.arg(0).arg(0)
        if z3.is_eq(f):
            a, b = f.arg(0), f.arg(1)
            for x, y in ((a, b), (b, a)):
                if z3.is_int_value(y) and z3.simplify(x).eq(L):
                    return y.as_long()
    return None


class SStr(Sym):
    """Columns [lo, hi) of line number j (hi None: to its end)."""

    def __init__(self, j, lo=0, hi=None, stripped=False):
        self.j, self.lo, self.hi, self.stripped = j, lo, hi, stripped

    def _subst(self, p):
        return SStr(z3.substitute(self.j, *p), self.lo, self.hi, self.stripped)

    def _isinstance(self, c):
        return c is str

    def _len(self):
        if self.stripped:
            raise Unsupported("len of stripped text")
        if self.hi is not None:
            return self.hi - self.lo
        return core.mkn(LEN(self.j) - self.lo) if self.lo else core.mkn(LEN(self.j))

    def _has(self, k):
        """column lo+k exists."""
        if self.hi is not None:
            return k < self.hi - self.lo
        n = known_len(self.j)
        if n is not None:
            return self.lo + k < n
        return decide(LEN(self.j) > self.lo + k)

    def ch(self, k):
        return CH(self.j, z3.IntVal(self.lo + k))

    def _getitem(self, interp, ix):
        if self.stripped:
            raise Unsupported("index of stripped text")
        if isinstance(ix, slice):
            a, b, st = ix.start or 0, ix.stop, ix.step
            if st not in (None, 1) or isinstance(a, Sym) or isinstance(b, Sym) or a < 0 or (b is not None and b < 0):
                raise Unsupported("text slice")
            if b is None:
                return SStr(self.j, self.lo + a, self.hi)
            if b > 0 and not self._has(b - 1):
                raise Unsupported("slice past the end of text")
            return SStr(self.j, self.lo + a, self.lo + b)
        if isinstance(ix, Num):
            c = core.const_of(z3.simplify(ix.e))
            if c is None:
                raise Unsupported("symbolic text index")
            ix = int(c)
        if ix < 0:
            if self.hi is None:
                if not decide(LEN(self.j) == 69):
                    raise Unsupported("negative index")
                ix = 69 - self.lo + ix
            else:
                ix = self.hi - self.lo + ix
        if not self._has(ix):
            raise SymRaise(IndexError("string index out of range"))
        return SStr(self.j, self.lo + ix, self.lo + ix + 1)

    def _iter(self):
        if self.hi is None:
            if not decide(LEN(self.j) == 69):
                raise Unsupported("iterate text of unknown length")
            hi = 69
        else:
            hi = self.hi
        return [SStr(self.j, k, k + 1) for k in range(self.lo, hi)]

    def width(self):
        return None if self.hi is None else self.hi - self.lo

    def isdigit(self):
        if self.width() == 1:
            return mkb(digit(self.ch(0)))
        if self.width() is None:
            raise Unsupported("isdigit")
        return mkb(z3.And(*[digit(self.ch(k)) for k in range(self.width())]))

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        if self.width() != 1:
            raise Unsupported("isalpha")
        c = self.ch(0)
        return mkb(z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122)))

    def strip(self, *a):
        if a:
            raise Unsupported("strip chars")
        return SStr(self.j, self.lo, self.hi, True)

    def replace(self, *a):
        raise Unsupported("replace")

    def _int(self):
        if self.width() == 1 and not self.stripped:
            c = self.ch(0)
            d = z3.simplify(digit(c))
            if any(f.eq(d) or f.eq(digit(c)) for f in ctx.formulas()):
                return Num(z3.If(c <= 127, c - 48, DIGVAL(c)))
            if decide(z3.And(c >= 48, c <= 57)):
                return Num(c - 48)
            if decide(z3.And(c > 127, ISDIG(c))):
                return Num(DIGVAL(c))
            raise SymRaise(ValueError("invalid literal for int()"))
        if self.hi is None:
            raise Unsupported("int of text")
        ctx.trust("int()/float() of a text field is the number held in those columns")
        return Num(INTV(self.j, z3.IntVal(self.lo), z3.IntVal(self.hi)))

    def _float(self):
        if self.hi is None:
            raise Unsupported("float of text")
        ctx.trust("int()/float() of a text field is the number held in those columns")
        return Num(FLTV(self.j, z3.IntVal(self.lo), z3.IntVal(self.hi)))

    def _str(self):
        return self

    def __eq__(self, o):
        if isinstance(o, str):
            if self.width() is None:
                raise Unsupported("compare text")
            if self.width() != len(o):
                return False
            return mkb(z3.And(*[self.ch(k) == ord(c) for k, c in enumerate(o)]))
        if isinstance(o, SStr):
            return mkb(self._equal(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkb(z3.Not(r.e)) if isinstance(r, SBool) else not r

    __hash__ = object.__hash__

    def _equal(self, o):
        if not isinstance(o, SStr):
            return z3.BoolVal(False)
        if (o.lo, o.hi, o.stripped) != (self.lo, self.hi, self.stripped):
            if (o.lo, o.hi) == (self.lo, self.hi):
                raise Unsupported("stripped and unstripped text")
            return z3.BoolVal(False)
        return self.j == o.j

    def __add__(self, o):
        return SText(self) + o

    def __radd__(self, o):
        return SText(o, self)

    def __lt__(self, o):
        return self._ord(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._ord(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._ord(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._ord(o, lambda a, b: a >= b)

    def _ord(self, o, f):
        if isinstance(o, str) and len(o) == 1 and self.width() == 1:
            return mkb(f(self.ch(0), ord(o)))
        raise Unsupported("text order")


def _text_float(t):
    """float of concatenated text: [sign] '0.' columns."""
    parts = [p for p in t.parts if p != ""]
    if len(parts) == 2 and parts[0] == "0." and isinstance(parts[1], SStr):
        p = parts[1]
        return Num(DECV(p.j, z3.IntVal(p.lo), z3.IntVal(p.hi)))
    if len(parts) == 3 and isinstance(parts[0], SStr) and parts[0].width() == 1 and parts[1] == "0." and isinstance(parts[2], SStr):
        s, p = parts[0], parts[2]
        v = Num(DECV(p.j, z3.IntVal(p.lo), z3.IntVal(p.hi)))
        return core.ite(s.ch(0) == 45, -v, v)
    raise Unsupported("float of this text")


SText._float = _text_float
SText.strip = lambda self: SText("strip(", *self.parts) if self.parts[0] != "strip(" else self
_old = SText._equal


def from_regex(pattern, s, full):
    """Formula: pattern matches text s (a whole line or a view) from its start."""
    tree = sre_parse.parse(pattern)
    n = s.width()

    def cls(items, c):
        neg = False
        out = []
        for op, av in items:
            if op is sre.NEGATE:
                neg = True
            elif op is sre.LITERAL:
                out.append(c == av)
            elif op is sre.RANGE:
                out.append(z3.And(c >= av[0], c <= av[1]))
            elif op is sre.CATEGORY and av is sre.CATEGORY_DIGIT:
                out.append(digit(c))
            elif op is sre.CATEGORY and av is sre.CATEGORY_SPACE:
                out.append(z3.Or(c == 32, z3.And(c >= 9, c <= 13), c == 0x85, c == 0xA0))
            else:
                raise Unsupported(f"regex class {op} {av}")
        f = z3.Or(*out)
        return z3.Not(f) if neg else f

    def step(nodes, sts):
        # sts: dict end -> cond
        for op, av in nodes:
            new = {}

            def put(e, c):
                new[e] = z3.Or(new[e], c) if e in new else c
            for e, c in sts.items():
                if op is sre.LITERAL:
                    put(e + 1, z3.And(c, s.ch(e) == av))
                elif op is sre.NOT_LITERAL:
                    put(e + 1, z3.And(c, s.ch(e) != av))
                elif op is sre.IN:
                    put(e + 1, z3.And(c, cls(av, s.ch(e))))
                elif op is sre.ANY:
                    put(e + 1, z3.And(c, s.ch(e) != 10))
                elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
                    lo, hi, sub = av
                    if hi > 80:
                        raise Unsupported("unbounded regex repeat")
                    cur = {e: c}
                    for k in range(int(hi) + 1):
                        if k >= lo:
                            for e2, c2 in cur.items():
                                put(e2, c2)
                        if k < hi:
                            cur = step(sub, cur)
                elif op is sre.SUBPATTERN:
                    for e2, c2 in step(av[3], {e: c}).items():
                        put(e2, c2)
                elif op is sre.BRANCH:
                    for alt in av[1]:
                        for e2, c2 in step(alt, {e: c}).items():
                            put(e2, c2)
                elif op is sre.AT and av in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
                    if e == 0:
                        put(e, c)
                elif op is sre.AT and av in (sre.AT_END, sre.AT_END_STRING):
                    L = z3.IntVal(n) if n is not None else LEN(s.j) - s.lo
                    end = L == e
                    if av is sre.AT_END:
                        end = z3.Or(end, z3.And(L == e + 1, s.ch(e) == 10))
                    put(e, z3.And(c, end))
                else:
                    raise Unsupported(f"regex {op}")
            sts = new
        return sts
    r = step(tree, {0: z3.BoolVal(True)})
    L = z3.IntVal(n) if n is not None else LEN(s.j) - s.lo
    return z3.simplify(z3.Or(*[z3.And(c, (L == e) if full else (L >= e)) for e, c in r.items()]))


class _Match(Sym):
    def _truth(self):
        return True


def _rm(full):
    def m(interp, args, kw):
        if len(args) >= 2 and isinstance(args[1], SStr):
            p = args[0].pattern if isinstance(args[0], re.Pattern) else args[0]
            return _Match() if decide(from_regex(p, args[1], full)) else None
        return NotImplemented
    return m


MODELS[re.match] = _rm(False)
MODELS[re.fullmatch] = _rm(True)


def pattern_method(interp, o, name, args):
    if name == "match":
        return _rm(False)(interp, [o] + list(args), {})
    if name == "fullmatch":
        return _rm(True)(interp, [o] + list(args), {})
    return NotImplemented


def lines(n):
    """A list of n lines (n symbolic), line j having number j."""
    return seq.Seq(n, lambda j: SStr(seq.zi(j)))


import builtins


@model(builtins.ord)
def _(interp, args, kw):
    x = args[0]
    if isinstance(x, SStr):
        if x.width() != 1:
            raise Unsupported("ord of text")
        return Num(x.ch(0))
    return NotImplemented

SText._str = lambda self: self
