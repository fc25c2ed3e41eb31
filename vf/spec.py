"""Specification mathematics usable both symbolically (Num) and concretely (float)."""
import math
from fractions import Fraction
from . import core
from .core import Num, Sym, PI, IPI


class _M:
    """sin, cos, ... of symbolic numbers without domain obligations (specification side)."""

    def __getattr__(self, name):
        def f(*a):
            saved = core.DOMAIN_CHECKS
            core.DOMAIN_CHECKS = False
            try:
                return core.fn(name, *a)
            finally:
                core.DOMAIN_CHECKS = saved
        return f

    pi = Num(PI)

    def rad(self, x):
        return x * Num(PI) * Fraction(1, 180)

    def deg(self, x):
        return x * Num(IPI) * 180


M = _M()


def integral(x):
    """Formula: the real x is an integer (terms that are integers by form are dropped first)."""
    import z3
    e = core.norm(core.zr(x))
    rest = core.rv(Fraction(0))
    for t, k in core.linear_terms(e).values():
        if t is None:
            rest = rest + core.rv(k)
            continue
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL) and k.denominator == 1:
            continue
        rest = rest + core.rv(k) * t
    rest = z3.simplify(rest)
    return rest == z3.ToReal(z3.ToInt(rest))


def congruent(a, b, m=360):
    """a = b modulo m."""
    return integral((a - b) * Fraction(1, m))
