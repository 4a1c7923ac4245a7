"""Identities of rational functions: a z3 term over the reals as a fraction of polynomials with rational coefficients in its
atoms (inputs, applications of uninterpreted functions).  Sums, products, quotients and integer powers only; a squared sine
is rewritten with sin^2 = 1 - cos^2.  The denominators met on a path are non-zero there: a quotient by zero ends the path."""
from fractions import Fraction

import z3

from vp.sym import Unsupported

ONE = {(): Fraction(1)}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            e = dict(m)
            for x, k in n:
                e[x] = e.get(x, 0) + k
            key = tuple(sorted(e.items()))
            v = r.get(key, 0) + c * d
            if v:
                r[key] = v
            else:
                r.pop(key, None)
    if len(r) > 200000:
        raise Unsupported("polynomial too large")
    return r


class Conv:
    def __init__(self):
        self.atoms = {}
        self.memo = {}

    def atom(self, t):
        k = t.sexpr()
        self.atoms.setdefault(k, t)
        return k

    def conv(self, t):
        i = t.get_id()
        if i not in self.memo:
            self.memo[i] = (t, self._conv(t))
        return self.memo[i][1]

    def _conv(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long()) if z3.is_rational_value(t) else Fraction(t.as_long())
            return ({(): f} if f else {}), ONE
        k = t.decl().kind()
        ch = t.children()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            n, d = self.conv(ch[0])
            for c in ch[1:]:
                n2, d2 = self.conv(c)
                s = 1 if k == z3.Z3_OP_ADD else -1
                if d == d2:
                    n = padd(n, n2, s)
                else:
                    n, d = padd(pmul(n, d2), pmul(n2, d), s), pmul(d, d2)
            return n, d
        if k == z3.Z3_OP_UMINUS:
            n, d = self.conv(ch[0])
            return padd({}, n, -1), d
        if k == z3.Z3_OP_MUL:
            n, d = ONE, ONE
            for c in ch:
                n2, d2 = self.conv(c)
                n, d = pmul(n, n2), pmul(d, d2)
            return n, d
        if k == z3.Z3_OP_DIV:
            n, d = self.conv(ch[0])
            n2, d2 = self.conv(ch[1])
            if not n2:
                raise Unsupported("division by zero")
            return pmul(n, d2), pmul(d, n2)
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() <= 8:
            n, d = self.conv(ch[0])
            rn, rd = ONE, ONE
            for _ in range(ch[1].numerator_as_long()):
                rn, rd = pmul(rn, n), pmul(rd, d)
            return rn, rd
        if k == z3.Z3_OP_TO_REAL:
            return {((self.atom(t), 1),): Fraction(1)}, ONE
        if k == z3.Z3_OP_ITE:
            raise Unsupported("conditional")
        return {((self.atom(t), 1),): Fraction(1)}, ONE

    def reduce(self, p):
        """sin(x)^2 = 1 - cos(x)^2"""
        while True:
            for m in p:
                hit = next(((x, e) for x, e in m if e >= 2 and x.startswith("(sin ")), None)
                if hit:
                    break
            else:
                return p
            x, e = hit
            c = "(cos " + x[5:]
            self.atoms.setdefault(c, None)
            rest = {}
            for y, k in m:
                if y != x:
                    rest[y] = k
            if e > 2:
                rest[x] = e - 2
            k = p[m]
            p = dict(p)
            del p[m]
            base = {tuple(sorted(rest.items())): k}
            p = padd(p, base)
            rest[c] = rest.get(c, 0) + 2
            p = padd(p, {tuple(sorted(rest.items())): k}, -1)


def equal(a, b):
    """a = b wherever both are defined: True or False (not an identity of rational functions; the atoms may still make them equal)"""
    c = Conv()
    n, d = c.conv(a)
    n2, d2 = c.conv(b)
    return not c.reduce(padd(pmul(n, d2), pmul(n2, d), -1))
