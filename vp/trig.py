"""Trigonometric functions, square roots and powers of two over the reals, in a normal form.

sin and cos of (a * x + b) * pi with rational a, b are reduced with the half-turn shift, the quarter-turn shift and the parity
identities, so that equal values become equal terms; 2 ** (a * x + b) with integer b becomes 2 ** b * exp2(a * x).
The square root is characterised by sqrt(t) >= 0 and sqrt(t) ** 2 = t.  These identities are what the proofs trust."""
import math
from fractions import Fraction

import z3

from vp import sym
from vp.sym import Ctx, SReal, Unsupported, _nt, uf

PI = z3.Real("pi")
R = z3.RealSort()


def real(x):
    return SReal(_nt(x, True))


def frac(t):
    t = z3.simplify(t)
    if not z3.is_rational_value(t):
        return None
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


def variables(t):
    out, todo, seen = {}, [t], set()
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[str(u)] = u
        todo += u.children()
    return list(out.values())


def linear(t):
    """(coefficient, variable or None, constant) of a polynomial a * x + b"""
    vs = [v for v in variables(t) if not v.eq(PI)]
    if len(vs) > 1:
        raise Unsupported("several variables")
    if not vs:
        b = frac(t)
        if b is None:
            raise Unsupported("not a number")
        return Fraction(0), None, b
    x = vs[0]
    b = frac(z3.substitute(t, (x, z3.RealVal(0))))
    c = frac(z3.substitute(t, (x, z3.RealVal(1))))
    if b is None or c is None:
        raise Unsupported("not linear")
    a = c - b
    if not is_zero(t - (_q(a) * x + _q(b))):
        raise Unsupported("not linear")
    return a, x, b


def is_zero(t):
    s = z3.simplify(t, som=True)
    return z3.is_rational_value(s) and s.numerator_as_long() == 0


def _q(f):
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def turns(t):
    """t / pi as a linear term"""
    q = z3.simplify(z3.substitute(t, (PI, z3.RealVal(1))), som=True)
    if not is_zero(t - PI * q):
        raise Unsupported("angle is not a multiple of pi")
    return linear(q)


def _sin(a, x, b):
    sign = 1
    if a < 0:
        a, b, sign = -a, -b, -1
    b %= 2
    if b >= 1:
        b, sign = b - 1, -sign
    if a == 0:
        v = {Fraction(0): 0, Fraction(1, 2): 1, Fraction(1, 6): Fraction(1, 2), Fraction(5, 6): Fraction(1, 2)}.get(b)
        if v is not None:
            return SReal(_q(Fraction(v) * sign))
        r = uf("sinpi", R, R)(_q(b))
    else:
        r = uf("sinpi", R, R)(_q(a) * x + _q(b))
    Ctx.cur.axiom(z3.And(r >= -1, r <= 1))
    return SReal(r if sign > 0 else -r)


class Math:
    pi = SReal(PI)
    e = math.e
    inf = math.inf
    nan = math.nan

    def __getattr__(self, n):
        return getattr(sym.MATH, n)

    def sin(self, t):
        if not isinstance(t, sym.Sym):
            t = real(t)
        return _sin(*turns(t.t))

    def cos(self, t):
        if not isinstance(t, sym.Sym):
            t = real(t)
        a, x, b = turns(t.t)
        return _sin(a, x, b + Fraction(1, 2))

    def sqrt(self, t):
        if not isinstance(t, sym.Sym):
            return math.sqrt(t) if math.isqrt(int(t)) ** 2 != t else math.isqrt(int(t))
        if bool(t < 0):
            raise ValueError("math domain error")
        t = z3.simplify(t.t, som=True)
        f = frac(t)
        if f is not None and math.isqrt(f.numerator) ** 2 == f.numerator and math.isqrt(f.denominator) ** 2 == f.denominator:
            return SReal(_q(Fraction(math.isqrt(f.numerator), math.isqrt(f.denominator))))
        r = uf("rsqrt", R, R)(t)
        Ctx.cur.axiom(z3.And(r >= 0, r * r == t))
        return SReal(r)


MATH = Math()


def exp2(e):
    """2 ** e"""
    a, x, b = linear(_nt(e, True))
    if b.denominator != 1:
        c = uf("exp2", R, R)(_q(b - math.floor(b)))
        b = Fraction(math.floor(b))
    else:
        c = z3.RealVal(1)
    k = Fraction(2) ** int(b)
    if a == 0:
        return SReal(z3.simplify(_q(k) * c))
    r = uf("exp2", R, R)(_q(a) * x)
    Ctx.cur.axiom(z3.And(r > 0, z3.Implies(_q(a) * x == 0, r == 1), z3.Implies(_q(a) * x <= 0, r <= 1)))
    return SReal(_q(k) * c * r)


_rpow = SReal.__rpow__


def install():
    """2 ** t in this process is exp2"""
    def rpow(self, o):
        if o == 2:
            return exp2(self)
        return _rpow(self, o)
    SReal.__rpow__ = rpow
