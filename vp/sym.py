"""Symbolic values, path exploration and obligation discharge (z3).

The real code (Python functions of the repository, or the translated optimizer, see
pyx2py) is executed by CPython on these values.  Every branch on a symbolic condition
is explored both ways when z3 finds both feasible, so the set of executions covers all
inputs; a loop is followed until its condition becomes infeasible (complete) or cut by an
invariant the caller supplies.  ``prove`` discharges ``path condition => goal``.
"""
import math
import struct
import time

import z3

from vp.cyrt import Sym, MemFault
from vp import cyrt


def _guarded_check(orig):
    """an internal failure of the solver is no answer, and neither is anything that solver object says afterwards"""
    def check(self, *a):
        if getattr(self, "vp_failed", False):
            return z3.unknown
        try:
            return orig(self, *a)
        except z3.Z3Exception:
            self.vp_failed = True
            return z3.unknown
    check.vp = True
    return check


if not hasattr(z3.Solver.check, "vp"):
    z3.Solver.check = _guarded_check(z3.Solver.check)

F64 = z3.Float64()
RNE = z3.RNE()
z3.set_param("memory_max_size", 6000)


class Unsupported(Exception):
    """the value domain cannot represent this operation: the obligation is undecided"""


class Infeasible(BaseException):
    """current path condition is contradictory"""


class Budget(Exception):
    """path or time budget exhausted: undecided"""


class Replaced(Exception):
    pass


# ---------------------------------------------------------------- exploration
class Obl:
    __slots__ = ("name", "status", "backend", "secs", "model", "detail")

    def __init__(self, name, status, backend, secs, model=None, detail=""):
        self.name, self.status, self.backend, self.secs, self.model, self.detail = name, status, backend, secs, model, detail


class Abstractor:
    """replaces IEEE arithmetic by uninterpreted functions with a few true lemmas: a goal proved
    over the abstraction holds exactly; used before the exact (bit-blasted) query"""
    KINDS = None

    def __init__(self):
        if Abstractor.KINDS is None:
            Abstractor.KINDS = {z3.Z3_OP_FPA_ADD: "add", z3.Z3_OP_FPA_SUB: "sub", z3.Z3_OP_FPA_MUL: "mul",
                                z3.Z3_OP_FPA_DIV: "div", z3.Z3_OP_FPA_SQRT: "sqrt", z3.Z3_OP_FPA_ROUND_TO_INTEGRAL: "rti"}
        self.cache = {}
        self.keep = []
        self.lemmas = []
        self.seen = set()

    def __call__(self, t):
        k = t.get_id()
        r = self.cache.get(k)
        if r is not None:
            return r
        ch = t.children()
        if not ch:
            r = t
        else:
            nc = [self(c) for c in ch]
            d = t.decl()
            kind = self.KINDS.get(d.kind())
            if kind is not None:
                name = "a_" + kind + ("_" + str(nc[0].decl().name()) if kind == "rti" else "")
                args = [c for c in nc if z3.is_fp(c)]
                r = uf(name, *([F64] * (len(args) + 1)))(*args)
                self.lemma(kind, r, args)
            elif d.kind() == z3.Z3_OP_FPA_TO_FP and len(nc) == 2 and z3.is_fp(nc[1]):
                r = uf("a_tofp" + str(t.sort()).replace(" ", ""), nc[1].sort(), t.sort())(nc[1])
            elif all(a.get_id() == b.get_id() for a, b in zip(ch, nc)):
                r = t
            elif z3.is_quantifier(t):
                r = t
            elif d.kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR) :
                r = z3.And(*nc) if d.kind() == z3.Z3_OP_AND else z3.Or(*nc)
            else:
                r = d(*nc)
        self.cache[k] = r
        self.keep.append(t)
        return r

    def lemma(self, kind, r, a):
        k = r.get_id()
        if k in self.seen:
            return
        self.seen.add(k)
        self.keep.append(r)
        nan, inf, neg, zero = z3.fpIsNaN, z3.fpIsInf, z3.fpIsNegative, z3.fpIsZero
        O, N, L = z3.Or, z3.And, self.lemmas.append
        one, z0 = fpv(1.0), fpv(0.0)
        le = z3.fpLEQ
        unit = lambda t: N(le(z0, t), le(t, one))

        def bound(p, q, m):
            L(z3.Implies(N(le(z3.fpAbs(a[0]), fpv(p)), le(z3.fpAbs(a[1]), fpv(q))), le(z3.fpAbs(r), fpv(m))))

        def lit(t):
            t = z3.simplify(t)
            return pyvalue(t) if z3.is_fp_value(t) else None

        if kind in ("add", "mul"):
            # rounding is monotone: against a literal operand, bounds transfer
            for p, q in ((a[0], a[1]), (a[1], a[0])):
                v = lit(q)
                if v is None or v != v or abs(v) > 1e6:
                    continue
                for k in (-2.0, -1.0, 0.0, 0.5, 1.0, 2.0):
                    b = fpv(k + v if kind == "add" else k * v)
                    up = kind == "add" or v >= 0
                    L(z3.Implies(N(le(p, fpv(k)), z3.Not(inf(p))), le(r, b) if up else le(b, r)))
                    L(z3.Implies(N(le(fpv(k), p), z3.Not(inf(p))), le(b, r) if up else le(r, b)))
        if kind == "add":
            L(nan(r) == O(nan(a[0]), nan(a[1]), N(inf(a[0]), inf(a[1]), neg(a[0]) != neg(a[1]))))
            L(z3.Implies(N(le(z3.fpAbs(a[0]), fpv(1e100)), le(z3.fpAbs(a[1]), fpv(1e100))), le(z3.fpAbs(r), fpv(2e100))))
            bound(1e3, 1e3, 1e4), bound(1e6, 1e6, 1e7)
            L(z3.Implies(N(le(z0, a[0]), le(z0, a[1])), le(z0, r)))
            for p, q in ((a[0], a[1]), (a[1], a[0])):
                m = z3.fpNeg(q)
                L(z3.Implies(N(unit(p), unit(m), le(m, p)), unit(r)))
                L(z3.Implies(z3.Not(nan(r)), z3.Implies(le(p, m), le(r, z0))))
                L(z3.Implies(z3.Not(nan(r)), z3.Implies(le(m, p), le(z0, r))))
            L(z3.Implies(N(zero(a[1]), z3.Not(nan(a[0]))), z3.fpEQ(r, a[0])))
        elif kind == "sub":
            L(nan(r) == O(nan(a[0]), nan(a[1]), N(inf(a[0]), inf(a[1]), neg(a[0]) == neg(a[1]))))
            L(z3.Implies(N(le(z3.fpAbs(a[0]), fpv(1e100)), le(z3.fpAbs(a[1]), fpv(1e100))), le(z3.fpAbs(r), fpv(2e100))))
            bound(1e3, 1e3, 1e4), bound(1e6, 1e6, 1e7)
            L(z3.Implies(N(unit(a[0]), unit(a[1]), le(a[1], a[0])), unit(r)))
            L(z3.Implies(z3.Not(nan(r)), z3.Implies(le(a[0], a[1]), le(r, z0))))
            L(z3.Implies(z3.Not(nan(r)), z3.Implies(le(a[1], a[0]), le(z0, r))))
        elif kind == "mul":
            L(nan(r) == O(nan(a[0]), nan(a[1]), N(inf(a[0]), zero(a[1])), N(zero(a[0]), inf(a[1]))))
            L(z3.Implies(N(le(z3.fpAbs(a[0]), fpv(1e100)), le(z3.fpAbs(a[1]), fpv(1e100))), le(z3.fpAbs(r), fpv(2e200))))
            L(z3.Implies(N(unit(a[0]), unit(a[1])), unit(r)))
            for p, q in ((a[0], a[1]), (a[1], a[0])):
                L(z3.Implies(N(unit(p), le(z0, q), z3.Not(inf(q))), N(le(z0, r), le(r, q))))
                L(z3.Implies(N(unit(p), le(q, z0), z3.Not(inf(q))), N(le(q, r), le(r, z0))))
            bound(1e3, 1e3, 1e6), bound(1e6, 1e6, 1e12)
        elif kind == "div":
            L(nan(r) == O(nan(a[0]), nan(a[1]), N(inf(a[0]), inf(a[1])), N(zero(a[0]), zero(a[1]))))
            L(z3.Implies(N(le(z3.fpAbs(a[0]), fpv(1e100)), le(one, z3.fpAbs(a[1]))), le(z3.fpAbs(r), fpv(1e100))))
        elif kind == "sqrt":
            L(nan(r) == O(nan(a[0]), z3.fpLT(a[0], z0)))
            L(z3.Implies(unit(a[0]), unit(r)))
            L(z3.Implies(inf(r), inf(a[0])))
        elif kind == "rti":
            L(nan(r) == nan(a[0]))
            L(inf(r) == inf(a[0]))


class Ctx:
    cur = None

    def __init__(self, name, max_paths=4000, branch_ms=1000, prove_ms=20000, budget_s=120.0, tactic=None):
        self.name = name
        self.max_paths = max_paths
        self.branch_ms = branch_ms
        self.prove_ms = prove_ms
        self.deadline = time.time() + budget_s
        self.solver = z3.Solver()
        self.asolver = z3.Solver()
        self.abs = Abstractor()
        self.all_lemmas = []
        self.obls = []
        self.paths = 0
        self.decisions = []     # [cond taken?, alternative pending]
        self.pos = 0
        self.levels = 0         # solver levels corresponding to decisions
        self.inputs = {}        # name -> z3 term, for models
        self.solver_s = 0.0
        self.queries = 0
        self.covers = set()
        self.failed = False
        self.fresh_n = 0

    # -- running -----------------------------------------------------------
    def run(self, fn):
        """fn() once per feasible path"""
        prev = Ctx.cur
        Ctx.cur = self
        try:
            while True:
                self.paths += 1
                if self.paths > self.max_paths or time.time() > self.deadline:
                    self.obls.append(Obl(self.name + ":all-paths", "undecided", "z3", 0, detail="path/time budget"))
                    return self
                self.pos = 0
                self.fresh_n = 0
                self.local = []
                self.solver.push()
                self.asolver.push()
                if self.all_lemmas:
                    self.asolver.add(*self.all_lemmas)
                try:
                    fn()
                except Infeasible:
                    pass
                except (Unsupported, Budget) as e:
                    self.obls.append(Obl(self.name + ":supported", "undecided", "engine", 0, detail=repr(e)[:300]))
                    return self
                except z3.Z3Exception as e:
                    self.obls.append(Obl(self.name + ":supported", "undecided", "engine", 0, detail="z3: " + repr(e)[:300]))
                    return self
                finally:
                    self.solver.pop(self.solver.num_scopes())
                    self.asolver.pop(self.asolver.num_scopes())
                # next alternative
                while self.decisions and not self.decisions[-1][1]:
                    self.decisions.pop()
                if not self.decisions:
                    return self
                d = self.decisions[-1]
                d[0] = not d[0]
                d[1] = False
        finally:
            Ctx.cur = prev

    def check(self, *assumptions, ms):
        t = time.time()
        self.queries += 1
        self.solver.set("timeout", int(ms))
        self.solver.push()
        for a in assumptions:
            self.solver.add(a)
        try:
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
        self.solver_s += time.time() - t
        return r, m

    def add(self, c):
        self.solver.add(c)
        self._abs_add(c)

    def _abs_add(self, c):
        self.asolver.add(self.abs(c))
        self._flush()

    def _flush(self):
        if self.abs.lemmas:
            self.asolver.add(*self.abs.lemmas)
            self.all_lemmas += self.abs.lemmas
            self.abs.lemmas = []

    def acheck(self, c, ms):
        """abstract query: True when unsat"""
        t = time.time()
        self.queries += 1
        ac = self.abs(c)
        self._flush()
        self.asolver.push()
        self.asolver.set("timeout", int(ms))
        try:
            self.asolver.add(ac)
            return self.asolver.check() == z3.unsat
        finally:
            self.asolver.pop()
            self.solver_s += time.time() - t

    def branch(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if time.time() > self.deadline:
            raise Budget("time")
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            self.add(c if d[0] else z3.Not(c))
            return d[0]
        nc = z3.Not(c)
        if self.acheck(c, self.branch_ms) or self.check(c, ms=self.branch_ms)[0] == z3.unsat:
            # the negation is implied
            self.decisions.append([False, False])
            self.pos += 1
            self.add(nc)
            return False
        if self.acheck(nc, self.branch_ms) or self.check(nc, ms=self.branch_ms)[0] == z3.unsat:
            self.decisions.append([True, False])
            self.pos += 1
            self.add(c)
            return True
        self.decisions.append([True, True])
        self.pos += 1
        self.add(c)
        return True

    def assume(self, cond):
        c = cond.t if isinstance(cond, SBool) else cond
        if c is True:
            return
        if c is False:
            raise Infeasible
        self.add(c)
        if z3.is_false(z3.simplify(c)):
            raise Infeasible

    def assume_feasible(self, cond):
        self.assume(cond)
        r, _ = self.check(ms=self.branch_ms)
        if r == z3.unsat:
            raise Infeasible

    def axiom(self, c):
        self.add(c)

    def cover(self, name):
        """the current path is reachable (vacuity guard)"""
        if name in self.covers:
            return
        r, _ = self.check(ms=self.branch_ms)
        if r == z3.sat:
            self.covers.add(name)

    def model_of(self, m):
        out = {}
        for k, t in self.inputs.items():
            out[k] = pyvalue(m.eval(t, model_completion=True))
        return out

    def prove(self, name, goal, ms=None):
        """path condition => goal"""
        g = goal.t if isinstance(goal, SBool) else goal
        full = f"{self.name}:{name}"
        if g is True or g is False:
            g = z3.BoolVal(g)
        s = z3.simplify(g)
        if z3.is_true(s):
            self.obls.append(Obl(full, "proved", "simplify", 0.0))
            return True
        t0 = time.time()
        if self.acheck(z3.Not(g), 5000):
            self.obls.append(Obl(full, "proved", "z3", time.time() - t0))
            return True
        r, m = self.check(z3.Not(g), ms=ms or self.prove_ms)
        dt = time.time() - t0
        if r == z3.unsat:
            self.obls.append(Obl(full, "proved", "z3", dt))
            return True
        if r == z3.sat:
            self.obls.append(Obl(full, "refuted", "z3", dt, self.model_of(m)))
            return False
        self.obls.append(Obl(full, "undecided", "z3", dt, detail=str(self.solver.reason_unknown())))
        return None

    def fail(self, name, detail):
        """the current path must be unreachable"""
        full = f"{self.name}:{name}"
        t0 = time.time()
        if self.acheck(z3.BoolVal(True), 5000):
            self.obls.append(Obl(full, "proved", "z3", time.time() - t0))
            return
        r, m = self.check(ms=self.prove_ms)
        dt = time.time() - t0
        if r == z3.unsat:
            self.obls.append(Obl(full, "proved", "z3", dt))
        elif r == z3.sat:
            self.obls.append(Obl(full, "refuted", "z3", dt, self.model_of(m), detail))
        else:
            self.obls.append(Obl(full, "undecided", "z3", dt, detail=detail))


def ctx():
    return Ctx.cur


def fresh(prefix, sort):
    c = Ctx.cur
    c.fresh_n += 1
    return z3.Const(f"{prefix}!{c.fresh_n}", sort)


# ---------------------------------------------------------------- z3 helpers
def fpv(x):
    """exact Float64 literal"""
    x = float(x)
    if x != x:
        return z3.fpNaN(F64)
    if x == math.inf:
        return z3.fpPlusInfinity(F64)
    if x == -math.inf:
        return z3.fpMinusInfinity(F64)
    if x == 0.0:
        return z3.fpMinusZero(F64) if math.copysign(1.0, x) < 0 else z3.fpPlusZero(F64)
    bits = struct.unpack("<Q", struct.pack("<d", x))[0]
    return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, 64), F64))


def realv(x):
    from fractions import Fraction
    f = Fraction(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


def pyvalue(v):
    """z3 value -> Python value"""
    if z3.is_fp(v):
        b = z3.simplify(z3.fpToIEEEBV(v))
        if z3.is_bv_value(b):
            return struct.unpack("<d", struct.pack("<Q", b.as_long()))[0]
        return math.nan
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_bv_value(v):
        return v.as_long()
    return str(v)


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return Ctx.cur.branch(self.t)

    def _num(self):
        return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if isinstance(o, SBool):
            return SBool(self.t == o.t)
        if isinstance(o, bool):
            return SBool(self.t if o else z3.Not(self.t))
        return bool(self) == o

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __and__(self, o):
        return SBool(z3.And(self.t, _bt(o)))

    def __or__(self, o):
        return SBool(z3.Or(self.t, _bt(o)))

    def __invert__(self):
        return SBool(z3.Not(self.t))

    # C: an int 0/1
    def _to_int_(self, kind, lo, hi):
        return 1 if self else 0

    def _to_bint_(self):
        return self

    def _to_double_(self):
        return 1.0 if self else 0.0

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__

    def _concretise_(self):
        return 1 if self else 0

    def __float__(self):
        return 1.0 if self else 0.0

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __repr__(self):
        return f"SBool({self.t})"


def _bt(o):
    if isinstance(o, SBool):
        return o.t
    return z3.BoolVal(bool(o))


# ---------------------------------------------------------------- doubles
_uf = {}


def uf(name, *sorts):
    k = (name,) + sorts
    if k not in _uf:
        _uf[k] = z3.Function(name, *sorts)
    return _uf[k]


def _is(c):
    return z3.simplify(c)


def norm0(t):
    """-0.0 -> +0.0"""
    return z3.fpAdd(RNE, t, z3.fpPlusZero(F64))


def _lit(name, *ts):
    """libm itself on literal arguments"""
    vs = []
    for t in ts:
        t = z3.simplify(t)
        if not z3.is_fp_value(t):
            return None
        vs.append(pyvalue(t))
    return fpv(getattr(cyrt, "_cmath_" + name)(*vs))


def f_fmod(x, y):
    v = _lit("fmod", x, y)
    if v is not None:
        return v
    r = uf("fmod", F64, F64, F64)(x, y)
    A = Ctx.cur.axiom
    bad = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y), z3.fpIsInf(x), z3.fpIsZero(y))
    A(z3.fpIsNaN(r) == bad)
    A(z3.Implies(z3.Not(bad), z3.And(
        z3.fpLEQ(z3.fpAbs(r), z3.fpAbs(x)),
        z3.Or(z3.fpIsInf(y), z3.fpLT(z3.fpAbs(r), z3.fpAbs(y))),
        z3.fpIsNegative(r) == z3.fpIsNegative(x),
        z3.Implies(z3.fpLT(z3.fpAbs(x), z3.fpAbs(y)), r == x))))
    # integral operands give an integral remainder; modulus 1 gives the fraction
    return r


def f_copysign(x, y):
    return z3.If(z3.fpIsNaN(x), x, z3.If(z3.fpIsNegative(y), z3.fpNeg(z3.fpAbs(x)), z3.fpAbs(x)))


_RM = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "round": z3.RNA(), "rint": z3.RNE(), "nearbyint": z3.RNE()}


def f_uf1(name, x):
    v = _lit(name, x)
    if v is not None:
        return v
    r = uf(name, F64, F64)(x)
    A = Ctx.cur.axiom
    A(z3.Implies(z3.fpIsNaN(x), z3.fpIsNaN(r)))
    one = fpv(1.0)
    if name in ("sin", "cos", "tan"):
        A(z3.fpIsNaN(r) == z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x)))
        if name != "tan":
            A(z3.Implies(z3.Not(z3.fpIsNaN(r)), z3.fpLEQ(z3.fpAbs(r), one)))
    elif name in ("asin", "acos"):
        A(z3.fpIsNaN(r) == z3.Or(z3.fpIsNaN(x), z3.fpGT(z3.fpAbs(x), one)))
        A(z3.Not(z3.fpIsInf(r)))
    elif name == "atan":
        A(z3.fpIsNaN(r) == z3.fpIsNaN(x))
        A(z3.Not(z3.fpIsInf(r)))
    elif name == "tanh":
        A(z3.fpIsNaN(r) == z3.fpIsNaN(x))
        A(z3.Implies(z3.Not(z3.fpIsNaN(r)), z3.fpLEQ(z3.fpAbs(r), one)))
    elif name in ("sinh", "cosh", "exp"):
        A(z3.fpIsNaN(r) == z3.fpIsNaN(x))
        A(z3.Implies(z3.And(z3.fpIsInf(x), z3.Not(z3.fpIsNegative(x))), z3.And(z3.fpIsInf(r), z3.Not(z3.fpIsNegative(r)))))
    elif name == "log":
        A(z3.fpIsNaN(r) == z3.Or(z3.fpIsNaN(x), z3.fpLT(x, fpv(0.0))))
        A(z3.Implies(z3.fpIsZero(x), r == fpv(-math.inf)))
        A(z3.Implies(x == fpv(math.inf), r == fpv(math.inf)))
        A(z3.Implies(z3.And(z3.fpGT(x, fpv(0.0)), z3.Not(z3.fpIsInf(x))), z3.Not(z3.fpIsInf(r))))
    return r


def f_pow(x, y):
    """C pow, only specified for finite positive x and finite y (the other cases by Annex F)"""
    v = _lit("pow", x, y)
    if v is not None:
        return v
    x, y = z3.simplify(x), z3.simplify(y)
    r = uf("cpow", F64, F64, F64)(x, y)
    A = Ctx.cur.axiom
    one, zero = fpv(1.0), fpv(0.0)
    # |b| <= 1 to a non-negative power, or b >= 1 to a non-positive one, is at most 1 (trusted of libm)
    A(z3.Implies(z3.And(z3.fpGT(x, zero), z3.Or(z3.And(z3.fpLEQ(x, one), z3.fpGEQ(y, zero)),
                                                z3.And(z3.fpGEQ(x, one), z3.fpLEQ(y, zero)))), z3.fpLEQ(r, one)))
    A(z3.Implies(z3.And(z3.fpGT(x, fpv(0.0)), z3.Not(z3.fpIsInf(x)), z3.Not(z3.fpIsNaN(y)), z3.Not(z3.fpIsInf(y))),
                 z3.And(z3.Not(z3.fpIsNaN(r)), z3.Not(z3.fpIsNegative(r)))))
    A(z3.Implies(z3.fpIsZero(y), r == fpv(1.0)))
    A(z3.Implies(x == fpv(1.0), r == fpv(1.0)))
    A(z3.Implies(y == fpv(1.0), r == x))
    return r


class FP(Sym):
    """an IEEE double; arithmetic dunders follow Python's float, _c* names follow C.
    ``isint``: the value is a Python int (exactly equal to this double)"""
    __slots__ = ("t", "isint")

    def __init__(self, t, isint=False):
        self.t = t
        self.isint = isint

    @staticmethod
    def var(name):
        t = z3.FP(name, F64)
        if Ctx.cur is not None:
            Ctx.cur.inputs.setdefault(name, t)
        return FP(t)

    def _bin(self, o, f, swap=False):
        o = lift_fp(o)
        if o is None:
            return NotImplemented
        if self.isint or o.isint:
            raise Unsupported("arithmetic on a Python int obtained from a double") if (self.isint and o.isint) else _Mixed
        a, b = (o.t, self.t) if swap else (self.t, o.t)
        return FP(f(a, b))

    def _arith(self, o, f, swap=False):
        if isinstance(o, SReal) or isinstance(o, SInt):
            raise Unsupported("mixed domains")
        o2 = lift_fp(o)
        if o2 is None:
            return NotImplemented
        if EXACT_INT and self.isint and (o2.isint or isinstance(o, int)):
            a, b = (o2.t, self.t) if swap else (self.t, o2.t)
            return IntRes(f(a, b))
        if self.isint and (o2.isint or isinstance(o, int)):
            lim = fpv(float(1 << 51))
            small = lambda t: z3.fpLEQ(z3.fpAbs(t), lim)
            if not bool(SBool(z3.And(small(self.t), small(o2.t)))):
                raise Unsupported("large Python int arithmetic on a converted double")
            a, b = (o2.t, self.t) if swap else (self.t, o2.t)
            r = f(a, b)
            if r.decl().kind() == z3.Z3_OP_FPA_MUL:
                raise Unsupported("Python int product")
            return FP(norm0(r), True)
        a, b = (o2.t, self.t) if swap else (self.t, o2.t)
        return FP(z3.simplify(f(a, b)))

    def __add__(self, o):
        return self._arith(o, lambda a, b: z3.fpAdd(RNE, a, b))

    def __radd__(self, o):
        return self._arith(o, lambda a, b: z3.fpAdd(RNE, a, b), True)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: z3.fpSub(RNE, a, b))

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: z3.fpSub(RNE, a, b), True)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: z3.fpMul(RNE, a, b))

    def __rmul__(self, o):
        return self._arith(o, lambda a, b: z3.fpMul(RNE, a, b), True)

    def _div(self, a, b):
        if bool(SBool(z3.fpIsZero(b))):
            raise ZeroDivisionError("float division by zero")
        if EXACT_INT and z3.is_fp_value(z3.simplify(b)):
            # dividing by 1 or -1 is exact
            k = pyvalue(z3.simplify(b))
            if abs(k) == 1:
                return FP(a if k == 1 else z3.fpNeg(a))
        return FP(z3.simplify(z3.fpDiv(RNE, a, b)))

    def __truediv__(self, o):
        o2 = lift_fp(o)
        return NotImplemented if o2 is None else self._div(self.t, o2.t)

    def __rtruediv__(self, o):
        o2 = lift_fp(o)
        return NotImplemented if o2 is None else self._div(o2.t, self.t)

    @staticmethod
    def _pymod(a, b):
        """CPython float_rem"""
        if bool(SBool(z3.fpIsZero(b))):
            raise ZeroDivisionError("float modulo")
        mod = f_fmod(a, b)
        zero = fpv(0.0)
        if bool(SBool(z3.fpEQ(mod, zero))):
            return FP(f_copysign(zero, b))
        if bool(SBool(z3.fpIsNaN(mod))):
            # (wv < 0) != (mod < 0) may add wv: still NaN
            return FP(z3.fpNaN(F64))
        if bool(SBool(z3.fpLT(b, zero) != z3.fpLT(mod, zero))):
            return FP(z3.fpAdd(RNE, mod, b))
        return FP(mod)

    def __mod__(self, o):
        o2 = lift_fp(o)
        return NotImplemented if o2 is None else self._pymod(self.t, o2.t)

    def __rmod__(self, o):
        o2 = lift_fp(o)
        return NotImplemented if o2 is None else self._pymod(o2.t, self.t)

    @staticmethod
    def _floordiv(a, b):
        """CPython float_floor_div"""
        if bool(SBool(z3.fpIsZero(b))):
            raise ZeroDivisionError("float floor division by zero")
        raise Unsupported("float //")

    def __floordiv__(self, o):
        o2 = lift_fp(o)
        return NotImplemented if o2 is None else self._floordiv(self.t, o2.t)

    def __rfloordiv__(self, o):
        o2 = lift_fp(o)
        return NotImplemented if o2 is None else self._floordiv(o2.t, self.t)

    @staticmethod
    def _pypow(iv, iw):
        """CPython float_pow (a transcription of Objects/floatobject.c)"""
        B = lambda c: bool(SBool(c))
        zero, one = fpv(0.0), fpv(1.0)
        odd = lambda t: z3.fpEQ(f_fmod(z3.fpAbs(t), fpv(2.0)), one)
        if B(z3.fpIsZero(iw)):
            return FP(one)
        if B(z3.fpIsNaN(iv)):
            return FP(iv)
        if B(z3.fpIsNaN(iw)):
            return FP(one) if B(z3.fpEQ(iv, one)) else FP(iw)
        if B(z3.fpIsInf(iw)):
            av = z3.fpAbs(iv)
            if B(z3.fpEQ(av, one)):
                return FP(one)
            if B(z3.fpGT(iw, zero) == z3.fpGT(av, one)):
                return FP(z3.fpAbs(iw))
            return FP(zero)
        if B(z3.fpIsInf(iv)):
            o = B(odd(iw))
            if B(z3.fpGT(iw, zero)):
                return FP(iv) if o else FP(z3.fpAbs(iv))
            return FP(f_copysign(zero, iv)) if o else FP(zero)
        if B(z3.fpIsZero(iv)):
            o = B(odd(iw))
            if B(z3.fpLT(iw, zero)):
                raise ZeroDivisionError("0.0 cannot be raised to a negative power")
            return FP(iv) if o else FP(zero)
        neg = False
        if B(z3.fpLT(iv, zero)):
            if B(z3.Not(z3.fpEQ(iw, z3.fpRoundToIntegral(z3.RTN(), iw)))):
                return ComplexResult()
            iv = z3.fpNeg(iv)
            neg = B(odd(iw))
        ix = f_pow(iv, iw)
        if B(z3.fpIsInf(ix)):
            raise OverflowError("pow")
        return FP(z3.fpNeg(ix) if neg else ix)

    def __pow__(self, o):
        o2 = lift_fp(o)
        return NotImplemented if o2 is None else self._pypow(self.t, o2.t)

    def __rpow__(self, o):
        o2 = lift_fp(o)
        return NotImplemented if o2 is None else self._pypow(o2.t, self.t)

    def __neg__(self):
        if self.isint:
            return FP(norm0(z3.fpNeg(self.t)), True)
        return FP(z3.fpNeg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return FP(z3.fpAbs(self.t), self.isint)

    def _cmp(self, o, f):
        o2 = lift_fp(o)
        if o2 is None:
            return NotImplemented
        return SBool(f(self.t, o2.t))

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __eq__(self, o):
        r = self._cmp(o, z3.fpEQ)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, z3.fpEQ)
        return True if r is NotImplemented else SBool(z3.Not(r.t))

    __hash__ = None

    def __bool__(self):
        return bool(SBool(z3.Not(z3.fpIsZero(self.t))))

    # Python integer conversions
    def _toint(self, rm):
        if self.isint:
            return self
        if EXACT_INT and bool(SBool(z3.And(z3.fpEQ(self.t, z3.fpRoundToIntegral(z3.RTZ(), self.t)), z3.Not(z3.fpIsInf(self.t)),
                                           z3.Not(z3.And(z3.fpIsZero(self.t), z3.fpIsNegative(self.t)))))):
            return FP(self.t, True)
        if bool(SBool(z3.fpIsInf(self.t))):
            raise OverflowError("cannot convert float infinity to integer")
        if bool(SBool(z3.fpIsNaN(self.t))):
            raise ValueError("cannot convert float NaN to integer")
        return FP(norm0(z3.fpRoundToIntegral(rm, self.t)), True)

    def __floor__(self):
        return self._toint(z3.RTN())

    def __ceil__(self):
        return self._toint(z3.RTP())

    def __trunc__(self):
        return self._toint(z3.RTZ())

    def __round__(self, nd=None):
        if nd is not None:
            raise Unsupported("round(x, n)")
        return self._toint(z3.RNE())

    def is_integer(self):
        return SBool(z3.And(z3.Not(z3.fpIsInf(self.t)), z3.fpEQ(self.t, z3.fpRoundToIntegral(z3.RTZ(), self.t))))

    def __index__(self):
        return self._concretise_()

    def __float__(self):
        raise Unsupported("float() of a symbolic double in unconverted code")

    def __int__(self):
        raise Unsupported("int() of a symbolic double in unconverted code")

    # -- C side ----------------------------------------------------------
    def _to_double_(self):
        return FP(self.t)

    def _to_f32_(self):
        return FP(z3.fpFPToFP(RNE, z3.fpFPToFP(RNE, self.t, z3.Float32()), F64))

    def _to_bint_(self):
        return SBool(z3.Not(z3.fpIsZero(self.t)))

    def _to_int_(self, kind, lo, hi):
        t = z3.fpRoundToIntegral(z3.RTZ(), self.t)
        inr = z3.And(z3.Not(z3.fpIsNaN(t)), z3.fpGEQ(t, fpv(lo)), z3.fpLEQ(t, fpv(hi)) if hi < 1 << 53 else z3.fpLT(t, fpv(hi + 1)))
        if not bool(SBool(inr)):
            raise MemFault(f"undefined conversion to {kind}")
        return CInt(norm0(t))

    def _fp_div_(self, o):
        return FP(z3.simplify(z3.fpDiv(RNE, self.t, lift_fp(o).t)))

    def _fp_rdiv_(self, o):
        return FP(z3.simplify(z3.fpDiv(RNE, lift_fp(o).t, self.t)))

    def _bits_(self):
        return Bits(self.t)

    def _cmath_(self, name, *a):
        a = [lift_fp(v).t for v in a]
        x = a[0]
        if name == "isnan":
            return SBool(z3.fpIsNaN(x))
        if name == "isinf":
            return SBool(z3.fpIsInf(x))
        if name == "isfinite":
            return SBool(z3.Not(z3.Or(z3.fpIsInf(x), z3.fpIsNaN(x))))
        if name == "signbit":
            return SBool(z3.fpIsNegative(x))
        if name == "fabs":
            return FP(z3.fpAbs(x))
        if name == "sqrt":
            return FP(z3.fpSqrt(RNE, x))
        if name in _RM:
            return FP(z3.fpRoundToIntegral(_RM[name], x))
        if name == "copysign":
            return FP(f_copysign(x, a[1]))
        if name == "fmod":
            return FP(f_fmod(x, a[1]))
        if name == "pow":
            return FP(f_pow(x, a[1]))
        if name == "atan2":
            v = _lit("atan2", x, a[1])
            if v is not None:
                return FP(v)
            r = uf("atan2", F64, F64, F64)(x, a[1])
            Ctx.cur.axiom(z3.fpIsNaN(r) == z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(a[1])))
            Ctx.cur.axiom(z3.Not(z3.fpIsInf(r)))
            return FP(r)
        if len(a) == 1:
            return FP(f_uf1(name, x))
        raise Unsupported("libm " + name)

    def _concretise_(self):
        """a small non-negative integer value, by case analysis"""
        for k in range(0, 64):
            if bool(SBool(z3.fpEQ(self.t, fpv(float(k))))):
                return k
        raise Unsupported("unbounded symbolic index")

    def same(self, o):
        """bit-identity as a z3 formula (one NaN)"""
        return self.t == lift_fp(o).t

    def __repr__(self):
        return f"FP({self.t})"

    def __format__(self, spec):
        return repr(self)


_Mixed = Unsupported("mixed int/float")


# Python int arithmetic on two integral doubles: the exact result is represented by its correctly rounded double
EXACT_INT = False


class IntRes(FP):
    """a Python int of any size, known only through its rounding to a double (inf: too large); it may only be converted"""

    def __init__(self, t):
        super().__init__(z3.simplify(t), True)

    def _only(self, *a):
        raise Unsupported("arithmetic on an exact integer result")

    _bin = _arith = _div = _pymod = _pypow = _cmp = _toint = __neg__ = __abs__ = is_integer = __bool__ = _only


class ComplexResult:
    """the complex value Python returns for a negative base with fractional exponent"""


class CInt(FP):
    """a C integer obtained from a double (value exactly representable), plus a known offset"""
    __slots__ = ("off", "base")

    def __init__(self, t, off=0):
        self.base = t
        self.off = off
        self.t = t if off == 0 else z3.fpAdd(RNE, t, fpv(float(off)))
        self.isint = True

    def __add__(self, o):
        if type(o) is int:
            if not bool(SBool(z3.fpLEQ(z3.fpAbs(self.base), fpv(2.0 ** 51)))):
                raise Unsupported("large C integer")
            return CInt(self.base, self.off + o)
        return FP.__add__(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o) if type(o) is int else FP.__sub__(self, o)

    def _concretise_(self):
        for k in range(0, 64):
            if bool(SBool(z3.fpEQ(self.base, fpv(float(k - self.off))))):
                return k
        raise Unsupported("unbounded symbolic index")


class Bits(Sym):
    """the bit pattern of a double (memcpy); only compared for equality and converted back"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _from_bits_(self):
        return FP(self.t)

    def __eq__(self, o):
        if isinstance(o, Bits):
            return SBool(self.t == o.t)
        if isinstance(o, int):
            return SBool(self.t == fpv(struct.unpack("<d", struct.pack("<Q", o))[0]))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.t)) if isinstance(r, SBool) else True

    __hash__ = None

    def _to_int_(self, kind, lo, hi):
        return self


def lift_fp(o):
    if isinstance(o, FP):
        return o
    if isinstance(o, bool):
        return FP(fpv(1.0 if o else 0.0))
    if isinstance(o, int):
        try:
            f = float(o)
        except OverflowError:
            raise Unsupported("huge int")
        if int(f) != o:
            raise Unsupported("int not representable")
        return FP(fpv(f))
    if isinstance(o, float):
        return FP(fpv(o))
    if isinstance(o, SBool):
        return FP(z3.If(o.t, fpv(1.0), fpv(0.0)))
    return None


# ---------------------------------------------------------------- mathematical numbers
def _nt(o, real):
    if isinstance(o, SInt):
        return z3.ToReal(o.t) if real else o.t
    if isinstance(o, SReal):
        return o.t
    if isinstance(o, bool):
        o = int(o)
    if isinstance(o, int):
        return z3.RealVal(o) if real else z3.IntVal(o)
    if isinstance(o, float):
        if o != o or o in (math.inf, -math.inf):
            raise Unsupported("non-finite in a real domain")
        return realv(o)
    if isinstance(o, SBool):
        return z3.If(o.t, z3.RealVal(1), z3.RealVal(0)) if real else z3.If(o.t, z3.IntVal(1), z3.IntVal(0))
    return None


def _isreal(o):
    return isinstance(o, (SReal, float))


def py_floordiv(a, b):
    """Python // on z3 Ints (z3 div is Euclidean)"""
    return z3.If(b > 0, a / b, z3.If(a % b == 0, a / b, -((-a) / b) - z3.IntVal(0)) if False else z3.If(b < 0, (-a) / (-b), a / b))


class SInt(Sym):
    """mathematical integer"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def var(name):
        t = z3.Int(name)
        if Ctx.cur is not None:
            Ctx.cur.inputs.setdefault(name, t)
        return SInt(t)

    def _ar(self, o, f, swap=False):
        if isinstance(o, (list, tuple)):
            return NotImplemented
        real = _isreal(o)
        b = _nt(o, real)
        if b is None:
            return NotImplemented
        a = z3.ToReal(self.t) if real else self.t
        if swap:
            a, b = b, a
        return (SReal if real else SInt)(z3.simplify(f(a, b)))

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, list):
            return SRep(o, self)
        return self._ar(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SInt(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SInt(z3.If(self.t >= 0, self.t, -self.t))

    def __truediv__(self, o):
        b = _nt(o, True)
        if bool(SBool(b == 0)):
            raise ZeroDivisionError
        return SReal(z3.ToReal(self.t) / b)

    def __rtruediv__(self, o):
        if bool(SBool(self.t == 0)):
            raise ZeroDivisionError
        return SReal(_nt(o, True) / z3.ToReal(self.t))

    def _fd(self, a, b):
        if bool(SBool(b == 0)):
            raise ZeroDivisionError
        # Euclidean a/b: floor for b > 0; for b < 0 use (-a)/(-b)
        return z3.If(b > 0, a / b, (-a) / (-b)) if not z3.is_int_value(b) else (a / b if b.as_long() > 0 else (-a) / (-b))

    def __floordiv__(self, o):
        if _isreal(o):
            return SReal(z3.ToReal(z3.ToInt(z3.ToReal(self.t) / _nt(o, True))))
        b = _nt(o, False)
        if b is None:
            return NotImplemented
        return SInt(self._fd(self.t, b))

    def __rfloordiv__(self, o):
        return SInt(self._fd(_nt(o, False), self.t))

    def __mod__(self, o):
        if _isreal(o):
            return SReal(z3.ToReal(self.t)) % o
        b = _nt(o, False)
        if b is None:
            return NotImplemented
        q = self._fd(self.t, b)
        return SInt(self.t - b * q)

    def __rmod__(self, o):
        a = _nt(o, False)
        q = self._fd(a, self.t)
        return SInt(a - self.t * q)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.t
            return SInt(r)
        raise Unsupported("int pow")

    def _cm(self, o, f):
        real = _isreal(o)
        b = _nt(o, real)
        if b is None:
            return NotImplemented
        return SBool(f(z3.ToReal(self.t) if real else self.t, b))

    def __lt__(self, o):
        return self._cm(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cm(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cm(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cm(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cm(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cm(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    __hash__ = None

    def __bool__(self):
        return bool(SBool(self.t != 0))

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __round__ = __floor__

    def is_integer(self):
        return True

    def __index__(self):
        return self._concretise_()

    def _concretise_(self):
        for k in range(0, 64):
            if bool(SBool(self.t == k)):
                return k
        raise Unsupported("unbounded symbolic index")

    def _to_int_(self, kind, lo, hi):
        if not bool(SBool(z3.And(self.t >= lo, self.t <= hi))):
            raise MemFault(f"integer out of {kind}")
        return self

    def _to_bint_(self):
        return SBool(self.t != 0)

    def _to_double_(self):
        return SReal(z3.ToReal(self.t))

    def _c_div_(self, o):
        b = _nt(o, False)
        if bool(SBool(b == 0)):
            raise MemFault("division by zero")
        a = self.t
        q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
        return SInt(q)

    def _c_rdiv_(self, o):
        return SInt(_nt(o, False))._c_div_(self)

    def _c_mod_(self, o):
        return self - self._c_div_(o) * o

    def _c_rmod_(self, o):
        return SInt(_nt(o, False))._c_mod_(self)

    def __repr__(self):
        return f"SInt({self.t})"


class SRep(Sym):
    """[v] * n"""
    __slots__ = ("v", "n")

    def __init__(self, lst, n):
        if len(lst) != 1:
            raise Unsupported("repetition of a longer list")
        self.v = lst[0]
        self.n = n


class SReal(Sym):
    """mathematical real (stands for a float when rounding is abstracted; stated as an assumption)"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def var(name):
        t = z3.Real(name)
        if Ctx.cur is not None:
            Ctx.cur.inputs.setdefault(name, t)
        return SReal(t)

    def _ar(self, o, f, swap=False):
        b = _nt(o, True)
        if b is None:
            return NotImplemented
        a = self.t
        if swap:
            a, b = b, a
        return SReal(z3.simplify(f(a, b)))

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._ar(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SReal(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SReal(z3.If(self.t >= 0, self.t, -self.t))

    def __truediv__(self, o):
        b = _nt(o, True)
        if b is None:
            return NotImplemented
        if bool(SBool(b == 0)):
            raise ZeroDivisionError
        return SReal(self.t / b)

    def __rtruediv__(self, o):
        if bool(SBool(self.t == 0)):
            raise ZeroDivisionError
        return SReal(_nt(o, True) / self.t)

    def __floordiv__(self, o):
        q = self.__truediv__(o)
        return SReal(z3.ToReal(z3.ToInt(q.t)))

    def __rfloordiv__(self, o):
        q = self.__rtruediv__(o)
        return SReal(z3.ToReal(z3.ToInt(q.t)))

    def __mod__(self, o):
        return self - self.__floordiv__(o) * o

    def __rmod__(self, o):
        return o - self.__rfloordiv__(o) * self

    def __pow__(self, o):
        if isinstance(o, (int, float)) and float(o).is_integer() and 0 <= o <= 8:
            r = z3.RealVal(1)
            for _ in range(int(o)):
                r = r * self.t
            return SReal(r)
        return SReal(uf("rpow", z3.RealSort(), z3.RealSort(), z3.RealSort())(self.t, _nt(o, True)))

    def __rpow__(self, o):
        return SReal(uf("rpow", z3.RealSort(), z3.RealSort(), z3.RealSort())(_nt(o, True), self.t))

    def _cm(self, o, f):
        b = _nt(o, True)
        if b is None:
            return NotImplemented
        return SBool(f(self.t, b))

    __lt__ = lambda self, o: self._cm(o, lambda a, b: a < b)
    __le__ = lambda self, o: self._cm(o, lambda a, b: a <= b)
    __gt__ = lambda self, o: self._cm(o, lambda a, b: a > b)
    __ge__ = lambda self, o: self._cm(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cm(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cm(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    __hash__ = None

    def __bool__(self):
        return bool(SBool(self.t != 0))

    def __floor__(self):
        return SInt(z3.ToInt(self.t))

    def __ceil__(self):
        return SInt(-z3.ToInt(-self.t))

    def __trunc__(self):
        return SInt(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))

    def __round__(self, nd=None):
        h = z3.ToInt(self.t + z3.Q(1, 2))
        tie = z3.ToReal(h) == self.t + z3.Q(1, 2)
        return SInt(z3.If(z3.And(tie, h % 2 == 1), h - 1, h))

    def is_integer(self):
        return SBool(z3.IsInt(self.t))

    def _to_double_(self):
        return self

    def _to_f32_(self):
        raise Unsupported("f32 of a real")

    def _to_bint_(self):
        return SBool(self.t != 0)

    def _to_int_(self, kind, lo, hi):
        tr = self.__trunc__()
        return tr._to_int_(kind, lo, hi)

    def _fp_div_(self, o):
        return SReal(self.t / _nt(o, True))

    def _fp_rdiv_(self, o):
        return SReal(_nt(o, True) / self.t)

    def _cmath_(self, name, *a):
        if name == "isnan" or name == "isinf":
            return False
        if name == "isfinite":
            return True
        if name == "signbit":
            return self < 0
        if name == "fabs":
            return abs(self)
        if name == "round":
            h = z3.If(self.t >= 0, z3.ToInt(self.t + z3.Q(1, 2)), -z3.ToInt(-self.t + z3.Q(1, 2)))
            return SReal(z3.ToReal(h))
        if name in ("floor", "ceil", "trunc"):
            r = {"floor": self.__floor__, "ceil": self.__ceil__, "trunc": self.__trunc__}[name]()
            return SReal(z3.ToReal(r.t))
        if name == "copysign":
            m = abs(lift_real(a[0]))
            return m if bool(lift_real(a[1]) >= 0) else -m
        if len(a) == 1:
            return SReal(uf("r" + name, z3.RealSort(), z3.RealSort())(self.t))
        return SReal(uf("r" + name, *([z3.RealSort()] * (len(a) + 1)))(*[_nt(v, True) for v in a]))

    def __repr__(self):
        return f"SReal({self.t})"


def lift_real(o):
    return o if isinstance(o, SReal) else SReal(_nt(o, True))


# ---------------------------------------------------------------- Python builtins over symbolic values
class MathShim:
    """the math module, on symbolic values by CPython's definitions over libm"""

    def __getattr__(self, name):
        f = getattr(math, name)
        if not callable(f):
            return f
        special = getattr(self, "_" + name, None) if not name.startswith("_") else None

        def g(*a):
            if not any(isinstance(x, Sym) for x in a):
                return f(*a)
            if special is not None:
                return special(*a)
            return _math_generic(name, *a)
        return g

    def _isnan(self, x):
        return x._cmath_("isnan", x) if isinstance(x, (FP, SReal)) else False

    def _isinf(self, x):
        return x._cmath_("isinf", x) if isinstance(x, (FP, SReal)) else False

    def _isfinite(self, x):
        return x._cmath_("isfinite", x) if isinstance(x, (FP, SReal)) else True

    def _floor(self, x):
        return x.__floor__()

    def _ceil(self, x):
        return x.__ceil__()

    def _trunc(self, x):
        return x.__trunc__()

    def _fabs(self, x):
        return abs(x)

    def _copysign(self, x, y):
        s = x if isinstance(x, Sym) else y
        if isinstance(s, SInt):
            s = lift_real(s)
        return s._cmath_("copysign", x, y)

    def _degrees(self, x):
        return x * (180.0 / math.pi)

    def _radians(self, x):
        return x * (math.pi / 180.0)

    def _frexp(self, x):
        raise Unsupported("frexp")


def _math_generic(name, *a):
    s = next(x for x in a if isinstance(x, Sym))
    if isinstance(s, (SReal, SInt)):
        s = lift_real(s)
        if name == "sqrt":
            if bool(s < 0):
                raise ValueError("math domain error")
            r = SReal(fresh("sqrt", z3.RealSort()))
            Ctx.cur.axiom(z3.And(r.t >= 0, r.t * r.t == s.t))
            return r
        return s._cmath_(name, *a)
    r = s._cmath_({"pow": "pow"}.get(name, name), *a)
    if name in ("sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "sqrt", "log", "exp"):
        # CPython math_1: domain errors and overflow raise
        x = lift_fp(a[0])
        if bool(r._cmath_("isnan", r)):
            if not bool(x._cmath_("isnan", x)):
                raise ValueError("math domain error")
            return r
        if bool(r._cmath_("isinf", r)) and bool(x._cmath_("isfinite", x)):
            raise (OverflowError if name in ("sinh", "cosh", "exp") else ValueError)("math range error")
        return r
    if name in ("atan2", "fmod"):
        x, y = lift_fp(a[0]), lift_fp(a[1])
        if bool(r._cmath_("isnan", r)) and not bool(x._cmath_("isnan", x)) and not bool(y._cmath_("isnan", y)):
            raise ValueError("math domain error")
        return r
    raise Unsupported("math." + name)


MATH = MathShim()


def s_int(x=0, *a):
    if isinstance(x, FP):
        return x._toint(z3.RTZ())
    if isinstance(x, (SReal,)):
        return x.__trunc__()
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return 1 if x else 0
    return int(x, *a)


def s_float(x=0.0):
    if isinstance(x, IntRes) and bool(SBool(z3.fpIsInf(x.t))):
        raise OverflowError("int too large to convert to float")
    if isinstance(x, FP):
        return FP(x.t)
    if isinstance(x, SBool):
        return FP(z3.If(x.t, fpv(1.0), fpv(0.0)))
    if isinstance(x, SInt):
        return SReal(z3.ToReal(x.t))
    if isinstance(x, SReal):
        return x
    return float(x)


def s_isinstance(x, c):
    if type(x) is ComplexResult:
        return complex in (c if isinstance(c, tuple) else (c,))
    if isinstance(x, Sym):
        cs = c if isinstance(c, tuple) else (c,)
        if isinstance(x, FP):
            k = int if x.isint else float
        elif isinstance(x, SInt):
            k = int
        elif isinstance(x, SReal):
            k = float
        elif isinstance(x, SBool):
            k = bool
        else:
            return isinstance(x, c)
        return any(issubclass(k, y) for y in cs if isinstance(y, type)) or isinstance(x, c)
    return isinstance(x, c)


def same_double(a, b):
    """z3: bit-identical as doubles (Python ints are converted exactly)"""
    return lift_fp(a).t == lift_fp(b).t
