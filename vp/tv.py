"""Symbolic execution of an input graph and of the emitted tree over an arbitrary memory.

``equal(entry, node, ...)`` runs both (vp.exe's executors) with every cell of memory a fresh
double (no NaN unless asked) and proves, on every path within the loop bound, that the ordered effects
are the same.  One obligation per effect and path."""
import z3

from vp import exe, rtspec
from vp.sym import F64, FP, RNE, Ctx, Infeasible, SBool, SReal, Unsupported, fpv, lift_fp, lift_real, uf

R = z3.RealSort()


def issym(v):
    return isinstance(v, (FP, SReal))


def T(v):
    t = lift_fp(v).t
    return t


def _z(t):
    """values are kept without negative zero"""
    t = z3.simplify(t)
    if z3.is_fp_value(t):
        return fpv(0.0) if z3.is_true(z3.simplify(z3.fpIsZero(t))) else t
    return t


def _n0(t):
    return z3.If(z3.fpIsZero(t), fpv(0.0), t)


def _lit(t, v):
    return z3.is_fp_value(t) and z3.is_true(z3.simplify(z3.fpEQ(t, fpv(v))))


def _b(c):
    return z3.If(c, fpv(1.0), fpv(0.0))


def _add(a, b):
    if _lit(a, 0.0):
        return b
    if _lit(b, 0.0):
        return a
    # commutative: one canonical order
    if a.hash() > b.hash():
        a, b = b, a
    return _n0(z3.fpAdd(RNE, a, b))


def _sub(a, b):
    if _lit(b, 0.0):
        return a
    return _n0(z3.fpSub(RNE, a, b))


def _mul(a, b):
    for p, q in ((a, b), (b, a)):
        if _lit(p, 0.0):
            return fpv(0.0)          # documented exception: x * 0
        if _lit(p, 1.0):
            return q
    if a.hash() > b.hash():
        a, b = b, a
    return _n0(z3.fpMul(RNE, a, b))


def _div(a, b):
    if _lit(b, 1.0):
        return a
    return _n0(z3.fpDiv(RNE, a, b))


def _U(name, *a):
    return uf("op_" + name, *([F64] * (len(a) + 1)))(*a)


_FOLD = {"Add": _add, "Subtract": _sub, "Multiply": _mul, "Divide": _div, "Mod": lambda a, b: _U("Mod", a, b), "Rem": lambda a, b: _U("Rem", a, b),
         "Power": lambda a, b: a if _lit(b, 1.0) else _U("Power", a, b)}
_RMS = {"Floor": z3.RTN(), "Ceil": z3.RTP(), "Trunc": z3.RTZ(), "Round": z3.RNE()}
_CMP = {"Equal": z3.fpEQ, "NotEqual": lambda a, b: z3.Not(z3.fpEQ(a, b)), "Less": z3.fpLT, "LessOr": z3.fpLEQ,
        "Greater": lambda a, b: z3.fpLT(b, a), "GreaterOr": lambda a, b: z3.fpLEQ(b, a)}


def apart(x, k):
    """not almost equal (known finding C08 switch-offset-rounding)"""
    if z3.is_fp_value(x):
        return
    v = _pyval(k)
    if v != v or abs(v) == float("inf"):
        return
    Ctx.cur.assume(z3.Or(z3.fpIsNaN(x), z3.fpEQ(x, k), z3.fpLEQ(x, fpv(v - 1e-9)), z3.fpGEQ(x, fpv(v + 1e-9))))


def _pyval(k):
    if z3.is_true(z3.simplify(z3.fpIsNaN(k))):
        return float("nan")
    if z3.is_true(z3.simplify(z3.fpIsInf(k))):
        return float("inf")
    import struct
    n = z3.simplify(z3.fpToIEEEBV(k)).as_long()
    return struct.unpack("<d", n.to_bytes(8, "little"))[0]


def apply_op(op, vals, strict):
    if not any(issym(v) for v in vals):
        try:
            return _orig(op, vals, strict)
        except exe.Reject:
            raise Infeasible from None
    c = Ctx.cur
    t = [_z(T(v)) for v in vals]
    if op in _FOLD:
        acc = t[0]
        for v in t[1:]:
            if strict:
                if op in ("Divide", "Mod", "Rem"):
                    c.assume(z3.Not(z3.fpIsZero(v)))
                if op == "Power":
                    c.assume(z3.fpGT(acc, fpv(0.0)))
                if op == "Multiply":
                    c.assume(z3.And(*[z3.Not(z3.Or(z3.fpIsInf(x), z3.fpIsNaN(x))) for x in (acc, v)]))
            acc = _z(_FOLD[op](acc, v))
        return FP(acc)
    if op in _CMP:
        if strict and op in ("Equal", "NotEqual"):
            for x, k in (t, t[::-1]):
                if z3.is_fp_value(k):
                    apart(x, k)
        return FP(z3.simplify(_b(_CMP[op](*t))))
    if op == "Not":
        return FP(z3.simplify(_b(z3.fpIsZero(t[0]))))
    if op == "Negate":
        return FP(_z(_n0(z3.fpNeg(t[0]))))
    if op == "Abs":
        return FP(_z(z3.fpAbs(t[0])))
    if op in _RMS:
        return FP(_z(_n0(z3.fpRoundToIntegral(_RMS[op], t[0]))))
    if op in ("Max", "Min"):
        a, b = t
        if strict:
            c.assume(z3.Not(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))))
        if a.hash() > b.hash():
            a, b = b, a
        return FP(_z(z3.If(z3.fpLT(a, b), b, a) if op == "Max" else z3.If(z3.fpLT(b, a), b, a)))
    return FP(_U(op, *t))


_orig = exe.apply_op


# ---------------------------------------------------------------- over the mathematical reals
def _RU(name, *a):
    return uf("r_" + name, *([R] * (len(a) + 1)))(*a)


def _rb(c):
    return z3.If(c, z3.RealVal(1), z3.RealVal(0))


_RFOLD = {"Add": lambda a, b: a + b, "Subtract": lambda a, b: a - b, "Multiply": lambda a, b: a * b, "Divide": lambda a, b: a / b,
          "Mod": lambda a, b: _RU("Mod", a, b), "Rem": lambda a, b: _RU("Rem", a, b), "Power": lambda a, b: _RU("Power", a, b)}
_RCMP = {"Equal": lambda a, b: a == b, "NotEqual": lambda a, b: a != b, "Less": lambda a, b: a < b, "LessOr": lambda a, b: a <= b,
         "Greater": lambda a, b: a > b, "GreaterOr": lambda a, b: a >= b}


def apply_real(op, vals, strict):
    if not any(issym(v) for v in vals):
        try:
            return _orig(op, vals, strict)
        except exe.Reject:
            raise Infeasible from None
    if any(isinstance(v, float) and (v != v or abs(v) == float("inf")) for v in vals):
        raise Unsupported("infinite constant over the reals")
    c = Ctx.cur
    t = [z3.simplify(lift_real(v).t) for v in vals]
    if op in _RFOLD:
        acc = t[0]
        for v in t[1:]:
            if strict and op in ("Divide", "Mod", "Rem"):
                c.assume(v != 0)
            if strict and op == "Power":
                c.assume(acc > 0)
            if op == "Divide" and not strict and z3.is_true(z3.simplify(v == 0)):
                raise Unsupported("division by zero in an unused value")
            acc = _RFOLD[op](acc, v)
        return SReal(z3.simplify(acc))
    if op in _RCMP:
        return SReal(_rb(_RCMP[op](*t)))
    x = t[0]
    fl = z3.ToReal(z3.ToInt(x))
    if op == "Not":
        r = _rb(x == 0)
    elif op == "Negate":
        r = -x
    elif op == "Abs":
        r = z3.If(x >= 0, x, -x)
    elif op == "Floor":
        r = fl
    elif op == "Ceil":
        r = -z3.ToReal(z3.ToInt(-x))
    elif op == "Trunc":
        r = z3.If(x >= 0, fl, -z3.ToReal(z3.ToInt(-x)))
    elif op == "Max":
        r = z3.If(t[1] > x, t[1], x)
    elif op == "Min":
        r = z3.If(t[1] < x, t[1], x)
    else:
        r = _RU(op, *t)
    return SReal(r)


class SymWorld(exe.World):
    bound = 12
    real = False
    special = False         # memory may hold infinities and NaN

    def addr(self, b, i):
        return self.conc(b, self.blocks), self.conc(i, range(self.bound))

    def conc(self, v, cand):
        if not issym(v):
            if v != int(v):
                raise Infeasible
            return int(v)
        for k in cand:
            if v == k:
                return k
        raise Infeasible

    def toint(self, v, n):
        if not issym(v):
            return int(v)
        t = apply_real("Trunc", [v], False) if self.real else FP(z3.fpRoundToIntegral(z3.RTZ(), v.t))
        for k in range(n):
            if t == k:
                return k
        return n

    def index(self, i, size):
        return self.conc(i, range(size))

    def case(self, t, n):
        if not issym(t):
            return super().case(t, n)
        for k in range(n):
            if t == k:
                return k
        return None

    def get(self, b, i):
        a = self.addr(b, i)
        if a not in self.mem:
            self.mem[a] = self.fresh(f"m{a[0]}_{a[1]}")
        return self.mem[a]

    def fresh(self, name):
        return SReal.var(name) if self.real else self.fin(FP.var(name))

    def fin(self, v):
        """negative zero is never kept; no infinities and NaN unless asked"""
        if self.real:
            return v
        z = z3.Or(z3.Not(z3.fpIsZero(v.t)), v.t == fpv(0.0))
        if not self.special:
            z = z3.And(z3.Not(z3.fpIsNaN(v.t)), z3.Not(z3.fpIsInf(v.t)), z)
        Ctx.cur.assume(z)
        return v

    def U(self, name, t):
        if self.real:
            return SReal(_RU(name, *t)) if t else SReal.var(name)
        return self.fin(FP(_U(name, *t))) if t else self.fin(FP.var(name))

    def set(self, b, i, v):
        a = self.addr(b, i)
        self.mem[a] = v
        if a[0] != exe.TEMP:
            self.log.append(("w", a[0], a[1], v))
        return v

    def call(self, op, vals):
        name = op.name
        if name == "Copy":
            vals = [self.conc(v, range(self.bound)) if issym(v) else v for v in vals]
            return super().call(op, vals)
        if name == "DebugLog":
            self.log.append(("log", *vals))
            return 0.0
        t = [lift_real(v).t if self.real else _z(T(v)) for v in vals]
        if op.side_effects:
            self.log.append((name, *vals))
            if name.startswith("Stack"):
                self.stackeff += 1
            return self.fresh(f"call{len(self.log)}")
        if op.pure:
            return self.U("rt_" + name, t)
        if name.startswith("StackGet"):
            return self.U(f"{name}_{self.stackeff}", t)
        if name in ("Random", "RandomInteger"):
            if self.log_random:
                self.draws += 1
            return self.U(f"{name}_{len(self.log)}", t)
        raise Unsupported(name)


def same_value(a, b):
    if not issym(a) and not issym(b):
        return z3.BoolVal(a == b or (a != a and b != b))
    if isinstance(a, SReal) or isinstance(b, SReal):
        if any(isinstance(v, float) and (v != v or abs(v) == float("inf")) for v in (a, b)):
            return z3.BoolVal(False)
        return lift_real(a).t == lift_real(b).t
    x, y = _z(T(a)), _z(T(b))
    if x.eq(y):
        return z3.BoolVal(True)
    return z3.Or(z3.fpEQ(x, y), z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y)))


def equal(name, entry, node, mem0, blocks, steps=30, budget=4.0, max_paths=40, cfgrun=None, branch_ms=60, prove_ms=400, real=False, special=False, pre=None):
    """Ctx with one obligation per (path, effect); paths longer than ``steps`` blocks are not followed"""
    exe.apply_op = apply_real if real else apply_op
    SymWorld.real, SymWorld.special = real, special
    c = Ctx(name, max_paths=max_paths, branch_ms=branch_ms, prove_ms=prove_ms, budget_s=budget)
    cr = cfgrun or exe.CfgRun(entry)
    nr = exe.NodeRun(node)
    SymWorld.blocks = blocks
    c.cut = 0

    def body():
        if pre is not None:
            pre(c)
        try:
            w = _run_cfg(cr, mem0, steps)
        except exe.OutOfFuel:
            c.cut += 1
            return
        except exe.Reject:
            return
        c.cover("path")
        w2 = SymWorld(mem0, False)
        w2.fuel = steps * 8 + 100
        try:
            r2 = nr.f(w2)
            w2.finish()
        except exe.OutOfFuel:
            c.fail("terminates", "the emitted program runs longer than the graph")
            return
        except exe.Reject as e:
            c.fail("address", repr(e))
            return
        if len(w.log) != len(w2.log):
            c.fail("effects", f"{len(w.log)} effects in the graph, {len(w2.log)} in the emitted tree")
            return
        goal = []
        for x, y in zip(w.log, w2.log):
            if len(x) != len(y) or x[0] != y[0] or (x[0] == "w" and x[1:3] != y[1:3]):
                c.fail("effects", f"{x[:3]} in the graph, {y[:3]} in the emitted tree")
                return
            for p, q in zip(x[1:], y[1:]):
                goal.append(same_value(p, q))
        if w.result is not None:
            goal.append(same_value(w.result, r2))
        c.prove("effects", z3.And(*goal) if goal else True)

    try:
        c.run(body)
    finally:
        exe.apply_op = _orig
    return c


def _run_cfg(cr, mem0, fuel):
    w = SymWorld(mem0, True)
    w.temps = {}
    b = cr.entry
    n = 0
    while b is not None:
        n += 1
        if n > fuel:
            raise exe.OutOfFuel
        st, test, conds, default = cr.block(b)
        if exe.returns(st, w):
            break
        t = test(w)
        if issym(t):
            if not SymWorld.real:
                for k in conds:
                    apart(t.t, fpv(float(k)))
            for k, d in conds.items():
                if t == k:
                    b = d
                    break
            else:
                b = default
        else:
            b = conds.get(t, default) if t == t else default
    w.finish()
    return w
