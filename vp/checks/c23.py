"""C23: number operations give one answer at compile time and at run time.

The module's own source (sonolus.script.num) is executed on symbolic doubles.  Contract of each operator method f, for
operands a, b that are any of: a compile-time constant (any finite double), a constant table entry, a runtime value (a
variable, an expression, the same variable twice):
  requires a, b finite
  ensures  no exception escapes (the build does not fail)
           either a constant is returned and equals the runtime operation Op_f(a, b) on the same doubles,
           or a place holding the value of a pure expression is returned whose runtime value is Op_f(a, b)
where equal is up to the sign of zero and the runtime operation is Python's on the same two doubles (rtspec, tied to the
interpreter by C01/C02/C10).  // on two constants is proved over the reals (its quotient is rounded at run time).
Contract of native_function(op)(fn) applied to constants / runtime values: the value of Op on the same operands, where fn
is the function's own body, for every function marked const_eval in math_impls, builtin_impls and interval."""
from vp.check import Task
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["num._Num.__add__", "num._Num.__sub__", "num._Num.__mul__", "num._Num.__truediv__", "num._Num.__floordiv__", "num._Num.__mod__", "num._Num.__pow__",
                  "num._Num.__r*__ (the seven reflected operators)", "num._Num.__eq__/__ne__/__lt__/__le__/__gt__/__ge__", "num._Num.__neg__/__pos__/__abs__/__bool__",
                  "num._Num.and_/or_/not_", "num._Num._bin_op", "num._Num._unary_op", "num._Num.__init__", "num._Num._as_py_or_none", "num._Num._as_py_", "num._Num._is_py_", "num._coerce_num", "num._num_of",
                  "native.native_function", "native.native_call", "math_impls (all functions)", "builtin_impls._max2_num", "builtin_impls._min2_num", "interval.clamp"],
    "trusted": ["z3 (floating-point and real arithmetic)", "CPython's float and int arithmetic as transcribed in vp/sym.py", "libm as deterministic functions satisfying the Annex F special cases", "vp/rtspec.py: the runtime's operations (C10 proves the interpreter against it)"],
    "assumptions": ["operands are finite and not -0.0 (its sign is not kept)", "the single-precision storage of the engine's constant table is outside the property", "round(x, n), and // of operands whose quotient is not exact: up to runtime rounding (x * 10**n in range)", "// is proved over the reals (at the quick tier)",
                    "/, % and ** of constants far apart in magnitude are proved with the C library's remainder and power as uninterpreted functions"],
    "rule": "bounded part: every operator and math function at every split of its operands into constants and runtime values, compiled by the real front end and run, on special and random values; non-trivial when Python has a real result",
    "technique": "the operator methods executed symbolically on arbitrary doubles in every operand mode, postconditions discharged by z3",
    "deadline": {"quick": 300, "thorough": 800},
}
BIN = {"__add__": "Add", "__sub__": "Subtract", "__mul__": "Multiply", "__truediv__": "Divide", "__floordiv__": "FloorDivide", "__mod__": "Mod", "__pow__": "Power",
       "__eq__": "Equal", "__ne__": "NotEqual", "__lt__": "Less", "__le__": "LessOr", "__gt__": "Greater", "__ge__": "GreaterOr", "and_": "And", "or_": "Or"}
RBIN = {"__radd__": "Add", "__rsub__": "Subtract", "__rmul__": "Multiply", "__rtruediv__": "Divide", "__rfloordiv__": "FloorDivide", "__rmod__": "Mod", "__rpow__": "Power"}
UN = {"__neg__": "Negate", "__abs__": "Abs", "not_": "Not", "__pos__": None, "__bool__": "Bool"}
MODES = ["const", "rom", "var", "expr"]
# unconverted Python operands
RAW = ["raw", "rawint", "rawbool"]


def tasks(tier, seed):
    n = len(cases(tier))
    ts = [Task("sym", "prove_ops", i, n, tier, timeout=280) for i in range(n)]
    ts += [Task("sym", "prove_natives", i, 8, tier, timeout=280) for i in range(8)]
    ts += [Task("real", "run", i, 6, seed, tier, timeout=600) for i in range(6)]
    return ts


# ---------------------------------------------------------------- symbolic environment
class Env:
    """what the operators see of the compilation context"""

    def __init__(self, rom):
        from sonolus.backend.mode import Mode
        self.blocks = Mode.PLAY.blocks
        self.statements = []
        self.rom = self
        self._rom = rom
        self.n = 0

    def get_value(self, i):
        return self._rom[i]

    def alloc(self, name=None, size=1):
        from sonolus.backend.place import BlockPlace, TempBlock
        self.n += 1
        return BlockPlace(TempBlock(f"r{self.n}", size), 0)

    def add_statements(self, *s):
        self.statements += s

    def check_readable(self, p):
        pass

    def is_writable(self, p):
        return True


class Raises(Exception):
    """the runtime operation has no value for these operands"""


class Run:
    """memory and expressions at run time, over symbolic doubles"""

    def __init__(self, env, cells):
        self.mem = dict(cells)
        self.env = env
        for s in env.statements:
            from sonolus.backend.ir import IRSet
            assert isinstance(s, IRSet)
            v = self.expr(s.value)
            assert s.place not in self.mem
            self.mem[s.place] = v

    def expr(self, e):
        from sonolus.backend.ir import IRConst, IRGet, IRPureInstr
        if isinstance(e, IRConst):
            return e.value
        if isinstance(e, IRGet):
            return self.mem[e.place]
        assert isinstance(e, IRPureInstr), e
        return op_value(e.op.name, [self.expr(a) for a in e.args])


def op_value(name, args):
    """the runtime operation"""
    from vp import rtspec, sym
    from vp.sym import ComplexResult
    args = [sym.s_float(a) for a in args]
    if name == "FloorDivide":
        return op_value("Floor", [op_value("Divide", args)])
    if name == "Bool":
        return op_value("NotEqual", [args[0], 0.0])
    sp = rtspec.Spec(lambda n: False, m=sym.MATH)
    try:
        if name in ("And", "Or"):
            a, b = args
            t = bool(a == 0)
            return (a if t else b) if name == "And" else (b if t else a)
        if name in rtspec.STRICT:
            r = rtspec.STRICT[name](sp, *args)
        else:
            a, *rest = args
            for b in rest:
                a = rtspec.FOLD[name](sp, a, b)
            r = a
    except (ArithmeticError, ValueError) as e:
        raise Raises(name) from e
    if isinstance(r, ComplexResult):
        raise Raises(name)
    return sym.s_float(r)


def outcome(f):
    try:
        return f()
    except Raises:
        return "raises"


def same(a, b):
    """equal up to the sign of zero, as a formula"""
    import z3
    from vp.sym import FP, SReal, lift_fp, lift_real
    if isinstance(a, str) or isinstance(b, str):
        return a == b if isinstance(a, str) and isinstance(b, str) else False
    if isinstance(a, SReal) or isinstance(b, SReal):
        return lift_real(a).t == lift_real(b).t
    x, y = lift_fp(a).t, lift_fp(b).t
    return z3.Or(x == y, z3.And(z3.fpIsZero(x), z3.fpIsZero(y)))


class World:
    def __init__(self, real=False):
        """fresh modules"""
        import sys
        from vp import pysrc, sym
        sym.EXACT_INT = True
        self.real = real
        self.num = pysrc.load("sonolus.script.num")
        keep = {}
        pre = "sonolus.script.internal.native"
        old = sys.modules.get(pre)
        oldn = sys.modules["sonolus.script.num"]
        sys.modules["sonolus.script.num"] = self.num
        try:
            self.native = pysrc.load(pre)
            sys.modules[pre] = self.native
            self.maths = pysrc.load("sonolus.script.internal.math_impls")
        finally:
            sys.modules["sonolus.script.num"] = oldn
            if old is not None:
                sys.modules[pre] = old
            else:
                del sys.modules[pre]
        del keep
        self.native.validate_value = self.validate

    def validate(self, v):
        from vp import sym
        if self.num._is_num(v):
            return v
        if sym.s_isinstance(v, (int, float)):
            return self.num.Num(v)
        raise TypeError(v)

    def enter(self, rom=()):
        self.env = Env(rom)
        get = lambda: self.env  # noqa: E731
        self.num.ctx = get
        self.native.ctx = get
        return self.env

    def var(self, c, name):
        import z3
        from vp.sym import FP, SReal
        if self.real:
            return SReal.var(name)
        v = FP.var(name)
        c.assume(z3.Not(z3.Or(z3.fpIsNaN(v.t), z3.fpIsInf(v.t), z3.And(z3.fpIsZero(v.t), z3.fpIsNegative(v.t)))))
        return v

    def operand(self, mode, v, k, cells):
        from sonolus.backend.ir import IRGet
        from sonolus.backend.place import BlockPlace, TempBlock
        if mode == "const":
            return self.num.Num(v)
        if mode == "rom":
            return self.num._num_of(BlockPlace(self.env.blocks.EngineRom, 3 + k, 0))
        p = BlockPlace(TempBlock(f"in{k}", 1), 0)
        cells[p] = v
        if mode == "var":
            return self.num._num_of(p)
        if mode == "expr":
            return self.num.Num(IRGet(p))
        return v

    def value(self, r, cells):
        """what the result is worth at run time"""
        run = Run(self.env, cells)
        if self.num._is_num(r):
            if r._is_py_():
                return r._as_py_()
            return run.expr(r.ir())
        return r


def rom_cells(env, rom, cells):
    from sonolus.backend.place import BlockPlace
    for i, v in enumerate(rom):
        cells[BlockPlace(env.blocks.EngineRom, i, 0)] = v


def known(c, v):
    """the literal the path condition equates v with, if any"""
    import z3
    from vp.sym import FP, fpv
    if isinstance(v, FP):
        for k in (0.0, 1.0, -1.0):
            if c.acheck(z3.Not(z3.fpEQ(v.t, fpv(k))), 500):
                return FP(fpv(k))
    return v


def cover(c, name, vs):
    """the path is reachable: tried with concrete operands, then left to the solver"""
    import itertools
    import z3
    from vp.sym import lift_fp
    if name in c.covers:
        return
    if not any(hasattr(v, "isint") for v in vs):
        return c.cover(name)
    ks = [0.0, 1.0, -1.0, 5.0, 2.5, -3.0, 1e308]
    for k, xs in enumerate(itertools.product(ks, repeat=len(vs))):
        if k < 49 and c.check(*[v.t == lift_fp(x).t for v, x in zip(vs, xs)], ms=300)[0] == z3.sat:
            c.covers.add(name)
            return


def cases(tier="thorough"):
    """(method, operation, operand modes); the expensive ones first"""
    L = all_cases()
    if tier == "quick":
        # the same path as a constant, after the coercion every other operator exercises
        L = [c for c in L if c not in [("__pow__", "Power", "const", "raw"), ("__pow__", "Power", "rom", "raw"), ("__rpow__", "Power", "const", "raw"), ("__rpow__", "Power", "rom", "raw")]]
    return sorted(L, key=lambda c: (c[1] != "Power", c[1] not in ("Divide", "Mod", "Multiply", "Subtract", "Add")))


def all_cases():
    L = []
    for m, op in BIN.items():
        for x in MODES:
            for y in MODES + ["raw"]:
                L.append((m, op, x, y))
        L.append((m, op, "var", "same"))
        L.append((m, op, "expr", "same"))
    for m, op in RBIN.items():
        for x in MODES:
            L.append((m, op, x, "raw"))
    for m, op in UN.items():
        for x in MODES:
            L.append((m, op, x, None))
    return L


def prove_ops(i, n, tier):
    outs = []
    for case in cases(tier)[i::n]:
        outs.append(pack(op_ctx(case, tier)))
    return merge(*outs)


def op_ctx(case, tier="quick"):
    from vp.sym import Ctx
    m, op, x, y = case
    comptime = all(q in ("const", "rom", "raw") for q in (x, y) if q)
    real = op == "FloorDivide" and (comptime or tier == "quick")
    w = World(real)
    c = Ctx(f"{m} {x}" + (f" {y}" if y else ""), branch_ms=150, budget_s=120 if tier == "quick" else 260)

    def run():
        a = w.var(c, "a")
        b = w.var(c, "b") if y and y != "same" else a
        cells = {}
        rom = [0.0, 0.0, 0.0, a, b]
        env = w.enter(rom)
        rom_cells(env, rom, cells)
        p = w.operand(x, a, 0, cells)
        q = p if y == "same" else w.operand(y, b, 1, cells) if y else None
        try:
            r = getattr(p, m)(q) if y else getattr(p, m)()
            got = outcome(lambda: w.value(r, cells))
        except (ArithmeticError, ValueError, TypeError) as e:
            c.fail("build-does-not-fail", repr(e))
            return
        args = (known(c, a), known(c, b)) if m in BIN else (known(c, b), known(c, a))
        want = outcome(lambda: op_value(op, args[:1] if not y else args)) if op else a
        cover(c, "value" if not isinstance(want, str) else "no value", [a, b] if y else [a])
        c.prove("same-value", same(got, want))
    c.run(run)
    if not c.covers and not any(o.status == "undecided" for o in c.obls):
        from vp.sym import Obl
        c.obls.append(Obl(c.name + ":not vacuous", "undecided", "z3", 0, detail="no path shown to reach the postcondition"))
    return c


# ---------------------------------------------------------------- native functions
def natives(w):
    """[(name, op, function, body, arity)] of the functions evaluated on constants"""
    import inspect
    from vp import pysrc, sym
    L = []
    import sonolus.script.internal.builtin_impls as bi
    import sonolus.script.interval as iv
    for mod in (w.maths, bi, iv):
        for k, f in sorted(vars(mod).items()):
            raw = getattr(f, "__wrapped__", None)
            if raw is None or not inspect.isfunction(f) or raw.__module__ not in (mod.__name__, getattr(mod, "__name__", "")):
                continue
            cl = inspect.getclosurevars(f).nonlocals
            if "op" not in cl or "const_eval" not in cl or not cl["const_eval"]:
                continue
            L.append((k, cl["op"], raw, len(inspect.signature(raw).parameters)))
    return L


def prove_natives(i, n, tier):
    w = World()
    outs = []
    k = 0
    for name, op, raw, arity in natives(w):
        fn = w.native.native_function(op, const_eval=True)(raw)
        modes = [("const",) * arity, ("var",) * arity, ("raw",) * arity]
        if arity > 1:
            modes += [("const",) + ("var",) * (arity - 1), ("var",) + ("const",) * (arity - 1)]
        for ms in modes:
            k += 1
            if k % n == i:
                outs.append(pack(native_ctx(w, name, op, fn, ms)))
    return merge(*outs)


def native_ctx(w, name, op, fn, modes):
    from vp.sym import Ctx
    c = Ctx(f"native {name} " + " ".join(modes), branch_ms=150, budget_s=100)
    w.real = name in ("frac",) or op.name == "Round"

    def run():
        vs = [w.var(c, f"x{j}") for j in range(len(modes))]
        cells = {}
        w.enter()
        try:
            r = fn(*[w.operand(m, v, j, cells) for j, (m, v) in enumerate(zip(modes, vs))])
            got = outcome(lambda: w.value(r, cells))
        except (ArithmeticError, ValueError, TypeError) as e:
            c.fail("build-does-not-fail", repr(e))
            return
        if op.name == "Clamp":
            c.assume(vs[1] <= vs[2])
        want = outcome(lambda: op_value(op.name, vs))
        cover(c, "value" if not isinstance(want, str) else "no value", vs)
        c.prove("same-value", same(got, want))
    c.run(run)
    if not c.covers and not any(o.status == "undecided" for o in c.obls):
        from vp.sym import Obl
        c.obls.append(Obl(c.name + ":not vacuous", "undecided", "z3", 0, detail="no path shown to reach the postcondition"))
    return c


# ---------------------------------------------------------------- the compiled programs
EXACT = {"{a} + {b}", "{a} - {b}", "{a} * {b}", "{a} / {b}", "{a} % {b}", "{a} == {b}", "{a} != {b}", "{a} < {b}", "{a} <= {b}", "{a} > {b}", "{a} >= {b}", "{a} and {b}", "{a} or {b}",
         "-{a}", "+{a}", "abs({a})", "not {a}", "min({a}, {b})", "max({a}, {b})", "min({a}, {b}, {c})", "max({a}, {b}, {c})", "int({a})", "float({a})", "bool({a})",
         "math.floor({a})", "math.ceil({a})", "math.trunc({a})", "({a} if {b} else {c})", "{a} < {b} < {c}", "{a} == {b} != {c}", "({a} < {b}) + ({b} < {c})", "not ({a} < {b})",
         "{a} in ({b}, {c})", "{a} not in ({b}, {c})", "(lambda x, y: x - y)({a}, {b})"}
NEAR = {"{a} // {b}", "{a} ** {b}", "{a} ** 2", "{a} ** 0.5", "2 ** {a}", "math.sin({a})", "math.cos({a})", "math.tan({a})", "math.asin({a})", "math.acos({a})", "math.atan({a})", "math.atan2({a}, {b})", "math.sinh({a})",
        "math.cosh({a})", "math.tanh({a})", "math.log({a})", "math.log({a}, {b})", "math.sqrt({a})", "round({a})", "round({a}, 2)", "frac({a})", "remainder({a}, {b})", "clamp({a}, {b}, {c})", "{a} % 1", "{a} + {b} * {c}", "({a} - {b}) / {c}", "sum(({a}, {b}, {c}))"}
VALS = [0, 1, -1, 2, -2, 3, 7, 10, 0.5, -0.5, 1.5, 2.5, -2.5, 0.1, 0.25, 1e-3, 1e9, 123456.75, 2 ** 31, 2 ** 53, 1e300, -1e300, 1.7e308, 5e-324, 1e-300, 400, -400, 1e15 + 0.5]
_ns = None


def names():
    global _ns
    if _ns is None:
        from vp import front
        from sonolus.script import interval as iv
        from sonolus.script.internal import math_impls
        A = front.api()
        _ns = {"inp": A["inp"], "out": A["out"], "done": A["done"], "math": math, "clamp": iv.clamp, "frac": math_impls.frac, "remainder": math_impls._remainder}
    return _ns


def python(e, a, b, c):
    """Python's value of the expression, or None when it has none (or not a finite real one)"""
    ns = dict(names())
    lit = {"a": lit_(a), "b": lit_(b), "c": lit_(c)}
    try:
        if "**" in e and abs(b) > 2000 and abs(a) > 1 or e.startswith("2 **") and a > 2000 or e == "round({a}, 2)" and abs(a) > 1e300:
            return None
        with_float = {k: f"float({v})" for k, v in lit.items()} if e in ("{a} ** {b}", "2 ** {a}") else lit
        if e.startswith("sum("):
            e = "0 + {a} + {b} + {c}"       # Python's sum also compensates the rounding
        v = eval(e.format(**with_float), ns)  # noqa: S307
        if isinstance(v, complex):
            return None
        v = float(v)
    except (ArithmeticError, ValueError):
        return None
    return v if v - v == 0 else None


def lit_(x):
    return f"({x!r})"


def accept(e, g, w, a, b):
    if g == w:
        return True
    if e in EXACT:
        return False
    if e == "{a} // {b}":
        # the quotient is rounded before it is floored
        q = a / b
        return abs(g - w) <= 1 and abs(q - round(q)) <= 1e-9 * max(1.0, abs(q)) or abs(g - w) <= 1e-9 * max(abs(g), abs(w))
    if e == "round({a}, 2)":
        return abs(g - w) <= 0.0100001 if abs(a * 100 % 1 - 0.5) < 1e-6 else abs(g - w) <= 1e-9 * max(1.0, abs(w))
    return abs(g - w) <= 1e-9 * max(1.0 if abs(w) > 1e-200 else 0.0, abs(g), abs(w))


def batch(r, n):
    L = []
    ex = sorted(EXACT | NEAR)
    for _ in range(n):
        e = r.choice(ex)
        v = [r.choice(VALS) if r.random() < 0.75 else (r.randint(-9, 9) if r.random() < 0.5 else round(r.uniform(-20, 20), 3)) for _ in range(3)]
        if r.random() < 0.15:
            v[1] = v[0]
        k = sum(("{%s}" % x) in e for x in "abc")
        L.append((e, v, [r.random() < 0.5 for _ in range(3)] if r.random() < 0.7 else [r.random() < 0.5] * 3, k))
    return L


def program(L):
    """one function evaluating all expressions; those without a value in Python are compiled but not reached"""
    code, cells = [], {}
    nin = 1
    cells[0] = 0
    for k, (e, v, consts, n) in enumerate(L):
        ops = {}
        for x, val, con in zip("abc", v, consts):
            if con:
                ops[x] = lit_(val)
            else:
                cells[nin] = float(val)
                ops[x] = f"inp({nin})"
                nin += 1
        s = f"out({k}, {e.format(**ops)})"
        code.append(f"    if inp(0) > 0:\n        {s}" if python(e, *v) is None else "    " + s)
    return "def f():\n" + "\n".join(code) + "\n    done(1)\n", cells


def check_batch(L):
    from vp import contract, front
    src, cells = program(L)
    try:
        comp = contract.Compiled(front.src_fn(src, names()), levels=("minimal", "standard"))
    except Exception as ex:  # noqa: BLE001
        if len(L) > 1:
            for x in L:
                w = check_batch([x])
                if w:
                    return w
        e, v, consts, _ = L[0]
        return {"key": e, "what": f"{e} on {v} (constants {consts}): the build fails: {contract._cause(ex)}", "input": {"src": src}}
    for lev, r in comp.run(cells).items():
        if r[0] != "ok":
            if len(L) > 1:
                continue
            return {"key": L[0][0], "what": f"{L[0]}: {lev}: {r[:2]}", "input": {"src": src, "cells": cells}}
        for k, (e, v, consts, _) in enumerate(L):
            w = python(e, *v)
            if w is None:
                continue
            g = r[2][k] if k < len(r[2]) else None
            if g is None or not accept(e, g, w, *v[:2]):
                return {"key": e, "what": f"{e} with a, b, c = {v}, compile-time constants {consts}, level {lev}: {g!r}, Python gives {w!r}", "input": {"expr": e, "values": v, "constants": consts}}
    if any(r[0] != "ok" for r in comp.run(cells).values()):
        for x in L:
            w = check_batch([x])
            if w:
                return w
    return None


def run(i, parts, seed, tier):
    import time
    r = random.Random(f"c23/{seed}/{i}")
    viol, n, nt = [], 0, set()
    t0 = time.time()
    secs = 30 if tier == "quick" else 500
    samples = []
    while time.time() - t0 < secs and not viol:
        L = batch(r, 16)
        w = check_batch(L)
        n += len(L)
        for e, v, cs, _ in L:
            if python(e, *v) is not None:
                nt.add(f"{e}{v}{cs}")
        if len(samples) < 3:
            samples.append(str(L[0]))
        if w:
            viol.append(w)
    return {"violations": viol, "bounded": {"name": "compiled expressions against Python", "evaluations": n, "distinct": len(nt), "samples": samples, "bound": f"{secs} s of random batches per process"}}


def replay(o):
    """the refuted operator on the verifier's operands and on many others, through the front end"""
    m = unmodel(o.get("model"))
    nm = o["name"].split(":")[0]
    key = nm.split()[0] if not nm.startswith("native") else nm.split()[1]
    sym_ = {"add": "{a} + {b}", "sub": "{a} - {b}", "mul": "{a} * {b}", "truediv": "{a} / {b}", "floordiv": "{a} // {b}", "mod": "{a} % {b}", "pow": "{a} ** {b}", "eq": "{a} == {b}", "ne": "{a} != {b}",
            "lt": "{a} < {b}", "le": "{a} <= {b}", "gt": "{a} > {b}", "ge": "{a} >= {b}", "and": "{a} and {b}", "or": "{a} or {b}", "neg": "-{a}", "abs": "abs({a})", "not": "not {a}", "pos": "+{a}", "bool": "bool({a})",
            "sin": "math.sin({a})", "max2_num": "max({a}, {b})", "min2_num": "min({a}, {b})", "ln": "math.log({a})", "clamp": "clamp({a}, {b}, {c})", "frac": "frac({a})", "remainder": "remainder({a}, {b})", "round": "round({a})"}
    base = key.strip("_")
    e = sym_.get(base) or (sym_.get(base[1:]) if base.startswith("r") else None) or next((x for x in NEAR | EXACT if f"math.{base}(" in x), None)
    vals = [x for x in m.values() if isinstance(x, (int, float)) and x - x == 0]
    r = random.Random(5)
    es = [e] if e else sorted(EXACT | NEAR)
    for t in range(400):
        L = []
        for k in range(8):
            x = r.choice(es)
            v = [r.choice(VALS) if r.random() < 0.8 else r.randint(-9, 9) for _ in range(3)]
            if t < 4 and vals:
                v = [(vals * 3)[j] for j in range(3)]
                v = [int(q) if q == int(q) else q for q in v]
            if r.random() < 0.2:
                v[1] = v[0]
            L.append((x, v, [r.random() < 0.5 for _ in range(3)], 0))
        w = check_batch(L)
        if w:
            return {"violations": [w]}
    return {}
