"""C10: the reference interpreter implements the runtime's node semantics.

Contracts.  For every operation ``op`` the contract of ``Interpreter.run(op(args))`` is: the sequence
of evaluations of the arguments, of memory reads and of memory writes (with their addresses and
values), the outcome (value, break, rejection) equal those of the specification in vp/rtspec.py,
where each argument evaluation (the recursive call) is an arbitrary value, each memory read is an
arbitrary value (``get``'s contract) and writes are recorded (``set``'s contract).  ``get`` and
``set`` are proved against a map that gives the last value written and -1 where nothing was,
for an arbitrary memory state satisfying the representation invariant."""
from vp.check import Task
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["interpret.Interpreter.run (each case)", "Interpreter.reduce_args", "Interpreter._set_rmw", "Interpreter._set_rmw_pointed",
                  "Interpreter._set_rmw_shifted", "Interpreter.get", "Interpreter.set", "Interpreter.ensure_int", "interpret._rem", "interpret._sign",
                  "interpret._judge"],
    "trusted": ["z3", "CPython semantics of float %, **, int(), round() as transcribed in vp/sym.py", "vp/rtspec.py is the intended node semantics"],
    "assumptions": ["addresses and counts are mathematical integers; stored values IEEE doubles",
                    "variadic nodes are checked to 4 arguments (JumpLoop 3), loops to 3 iterations (loop bodies carry no state but the index of JumpLoop, which is arbitrary in each iteration); Copy to count 4",
                    "Frac, Mod, Rem, Round compared over the reals (their double results by the sweep)"],
    "rule": "bounded part: random nested node trees with memory, control flow and breaks, run by the interpreter and by the specification; non-trivial when at least one memory write or break happens",
}

REALS = {"Frac", "Mod", "Rem", "Round", "SetMod", "SetRem", "Clamp", "Ceil", "Floor", "Trunc", "SetModPointed", "SetModShifted", "SetRemPointed",
         "SetRemShifted", "Degree", "Radian", "Judge", "JudgeSimple"}
ARITY = {"If": [3], "While": [2], "DoWhile": [2], "Block": [1], "Break": [2], "Execute": [0, 1, 2, 4], "Execute0": [0, 1, 3],
         "Switch": [1, 3, 5], "SwitchWithDefault": [2, 4, 6], "SwitchInteger": [1, 2, 4], "SwitchIntegerWithDefault": [2, 3, 5],
         "And": [0, 1, 2, 4], "Or": [0, 1, 2, 4], "JumpLoop": [0, 1, 2, 3], "Copy": [5], "DebugLog": [1], "DebugPause": [0],
         "Lerp": [3], "LerpClamped": [3], "Clamp": [3], "Unlerp": [3], "UnlerpClamped": [3], "Remap": [5], "RemapClamped": [5], "Judge": [8],
         "JudgeSimple": [5]}
BIN = {"Equal", "NotEqual", "Greater", "GreaterOr", "Less", "LessOr", "Max", "Min", "Arctan2"}
FOLDS = {"Add", "Subtract", "Multiply", "Divide", "Mod", "Rem", "Power"}


def _all_ops():
    from vp import rtspec
    ops = list(ARITY) + list(BIN) + list(FOLDS)
    ops += [o for o in rtspec.STRICT if o not in ops]
    for b in list(rtspec.RMW) + ["Get", "Set", "IncrementPre", "IncrementPost", "DecrementPre", "DecrementPost"]:
        ops += [b + f for f in ("", "Pointed", "Shifted")]
    return ops


def _ar(op):
    if op in ARITY:
        return ARITY[op]
    if op in BIN:
        return [2]
    if op in FOLDS:
        return [0, 1, 2, 3]
    for form, n in (("Pointed", 3), ("Shifted", 4), ("", 2)):
        if op.endswith(form) and (op.startswith("Set") or op.startswith("Get") or "crement" in op):
            return [n + (1 if op.startswith("Set") else 0)]
    return [1]


N = 48


def tasks(tier, seed):
    return ([Task("real", "prove_slice", i, timeout=300) for i in range(N)] + [Task("real", "prove_mem", timeout=200)] +
            [Task("real", "prove_ints", timeout=100)] +
            [Task("real", "sweep", seed * 100 + i, 6000 if tier == "quick" else 80000, timeout=600) for i in range(3 if tier == "quick" else 8)])


def prove_slice(i):
    ops = _all_ops()
    return merge(*[_prove(op, n) for k, op in enumerate(ops) if k % N == i for n in _ar(op)])


def _int_positions(op, n):
    """argument positions that are addresses or counts"""
    if op == "Copy":
        return range(5)
    for form, k in (("Pointed", 3), ("Shifted", 4)):
        if op.endswith(form):
            return range(k)
    if op.startswith("Set") or op == "Get" or "crement" in op:
        return range(2)
    if op == "Break":
        return range(1)
    if op in ("JumpLoop",):
        return range(n - 1)
    return ()


def _prove(opname, n):
    import math
    import z3
    from vp import pysrc, rtspec
    from vp.sym import FP, SInt, SReal, Ctx, MATH, ComplexResult, Infeasible, Sym, lift_real, same_double, SBool
    from sonolus.backend.node import FunctionNode
    from sonolus.backend.ops import Op
    I = pysrc.load("sonolus.backend.interpret")
    # len() of an argument list stays concrete; a symbolic int() in JumpLoop is a mathematical integer
    ints = set(_int_positions(opname, n))
    real = opname in REALS
    c = Ctx(f"run:{opname}/{n}", budget_s=240)
    pointed = opname.endswith("Pointed")

    class Leaf:
        def __init__(self, i):
            self.i = i

    class World:
        """the contracts of the recursive call and of get/set: arbitrary results, recorded calls"""

        def __init__(self):
            self.tr = []
            self.ne = 0
            self.ng = 0

        def ev(self, leaf):
            k = self.ne
            self.ne += 1
            if k >= (4 if n > 2 else 7) and opname in ("While", "DoWhile", "JumpLoop"):
                raise Infeasible
            self.tr.append(("E", leaf.i))
            name = f"e{k}"
            if leaf.i in ints:
                return SInt.var(name + "i")
            return SReal.var(name) if real else FP.var(name)

        def get(self, b, i):
            k = self.ng
            self.ng += 1
            self.tr.append(("G", b, i))
            if pointed and k < 2 or opname == "Copy":
                return SInt.var(f"g{k}i")
            return SReal.var(f"g{k}") if real else FP.var(f"g{k}")

        def set(self, b, i, v):
            self.tr.append(("S", b, i, v))
            return v

    def outcome(f, brk):
        try:
            return ("value", f())
        except brk as e:
            return ("break", e.n, getattr(e, "value", getattr(e, "v", None)))
        except (ValueError, ArithmeticError, AssertionError, TypeError, rtspec.SpecError) as e:
            return ("error",)

    def eq(a, b):
        if isinstance(a, ComplexResult) or isinstance(b, ComplexResult):
            return z3.BoolVal(isinstance(a, ComplexResult) == isinstance(b, ComplexResult))
        if isinstance(a, FP) or isinstance(b, FP):
            return z3.Or(same_double(a, b), z3.And(z3.fpIsZero(FPt(a)), z3.fpIsZero(FPt(b)))) if opname in ("Frac",) else same_double(a, b)
        return lift_real(a).t == lift_real(b).t

    def FPt(x):
        from vp.sym import lift_fp
        return lift_fp(x).t

    def run():
        leaves = tuple(Leaf(i) for i in range(n))
        if opname == "Break":
            pass
        w1, w2 = World(), World()

        class Int(I.Interpreter):
            def run(self, node):
                if isinstance(node, Leaf):
                    return w1.ev(node)
                return super().run(node)

            def get(self, b, i):
                return w1.get(b, i)

            def set(self, b, i, v):
                return w1.set(b, i, v)

        class Sp(rtspec.Spec):
            def ev(self, node):
                return w2.ev(node)

            def mget(self, b, i):
                return w2.get(b, i)

            def mset(self, b, i, v):
                return w2.set(b, i, v)

        sp = Sp(lambda x: False, intof=lambda x: x, m=MATH)
        if opname in ("Copy",):
            cnt = SInt.var("e4i")
            c.assume(z3.And(cnt.t <= 4))
        if opname in ("Block",):
            # the argument may break out with any count
            kind = bool(SBool(z3.Bool("brk")))
            if kind:
                nn = SInt.var("bn")
                c.assume(nn.t >= 1)
                v = FP.var("bv")
                w1.ev = lambda leaf: (_ for _ in ()).throw(I.BreakException(nn, v))
                w2.ev = lambda leaf: (_ for _ in ()).throw(rtspec.SpecBreak(nn, v))
        it = Int()
        a = outcome(lambda: it.run(FunctionNode(Op[opname], leaves)), I.BreakException)
        b = outcome(lambda: sp.run(FunctionNode(Op[opname], leaves)), rtspec.SpecBreak)
        c.cover("path")
        if a[0] != b[0]:
            c.fail("same-outcome", f"interpreter {a[0]}, specification {b[0]}")
            return
        if a[0] == "error":
            return
        for x, y in zip(a[1:], b[1:]):
            c.prove("same-result", eq(x, y))
        t1, t2 = w1.tr, w2.tr
        if [t[0] for t in t1] != [t[0] for t in t2]:
            c.fail("same-effects", f"{[t[0] for t in t1]} != {[t[0] for t in t2]}")
            return
        for x, y in zip(t1, t2):
            for p, q in zip(x[1:], y[1:]):
                if isinstance(p, int) and isinstance(q, int):
                    if p != q:
                        c.fail("evaluation-order", f"{t1} != {t2}")
                else:
                    c.prove("same-effect-operands", eq(p, q))
        if len(it.log) != len(sp.log):
            c.fail("same-log", "")
        for x, y in zip(it.log, sp.log):
            c.prove("same-log", eq(x, y))

    c.run(run)
    return pack(c)


# ---------------------------------------------------------------- memory
def prove_mem():
    import z3
    from vp import pysrc
    from vp.sym import Ctx, SInt, SReal, SRep, SBool, Sym
    I = pysrc.load("sonolus.backend.interpret", extra={"len": _slen})
    res = []
    for which in ("get", "set"):
        c = Ctx(f"memory:{which}", budget_s=120)

        def run(which=which):
            Z = z3.IntSort()
            P0, L0 = z3.Function("present", Z, z3.BoolSort()), z3.Function("length", Z, Z)
            D0 = z3.Function("data", Z, Z, z3.RealSort())
            mem = SymMem(lambda b: P0(b), lambda b: L0(b), lambda b, i: D0(b, i))
            M0 = lambda b, i: z3.If(z3.And(P0(b), i < L0(b)), D0(b, i), z3.RealVal(-1))
            it = I.Interpreter()
            it.blocks = mem
            b, i = SInt.var("block"), SInt.var("index")
            qb, qi = SInt.var("other_block"), SInt.var("other_index")
            c.assume(z3.And(L0(b.t) >= 0, L0(qb.t) >= 0, qi.t >= 0))
            valid = z3.And(i.t >= 0, i.t <= 65535)
            v = SReal.var("value")
            try:
                r = it.get(b, i) if which == "get" else it.set(b, i, v)
            except AssertionError:
                c.prove("rejects-only-invalid", z3.Not(valid))
                return
            c.prove("accepts-only-valid", valid)
            c.cover("accepted")
            m = it.blocks
            M1 = z3.If(z3.And(m.p(qb.t), qi.t < m.l(qb.t)), m.d(qb.t, qi.t), z3.RealVal(-1))
            if which == "get":
                c.prove("reads-last-written", r.t == M0(b.t, i.t))
                c.prove("frame", M1 == M0(qb.t, qi.t))
            else:
                c.prove("returns-value", r.t == v.t)
                c.prove("writes-only-its-cell", M1 == z3.If(z3.And(qb.t == b.t, qi.t == i.t), v.t, M0(qb.t, qi.t)))
            c.prove("length-invariant", m.l(qb.t) >= 0)

        c.run(run)
        res.append(pack(c))
    # initial state: nothing present, everything reads -1
    return merge(*res)


def _slen(x):
    return x.__symlen__() if hasattr(x, "__symlen__") else len(x)


class SymMem:
    """dict of lists with symbolic keys, as functions"""

    def __init__(self, p, l, d):
        self.p, self.l, self.d = p, l, d

    @staticmethod
    def _t(k):
        from vp.sym import _nt
        return _nt(k, False)

    def __contains__(self, k):
        from vp.sym import SBool
        return bool(SBool(self.p(self._t(k))))

    def __setitem__(self, k, v):
        import z3
        t = self._t(k)
        p, l, d = self.p, self.l, self.d
        if isinstance(v, SymListRef):
            assert v.mem is self and z3.eq(z3.simplify(v.k), z3.simplify(t)), "aliasing"
            return
        if not (isinstance(v, list) and not v):
            from vp.sym import Unsupported
            raise Unsupported("block assigned a non-empty list")
        self.p = lambda b: z3.Or(b == t, p(b))
        self.l = lambda b: z3.If(b == t, z3.IntVal(0), l(b))

    def __getitem__(self, k):
        from vp.sym import SBool
        t = self._t(k)
        if not bool(SBool(self.p(t))):
            raise KeyError
        return SymListRef(self, t)

    def setdefault(self, k, v):
        if k not in self:
            self[k] = v
        return self[k]

    def get(self, k, dflt=None):
        return self[k] if k in self else dflt


class SymListRef:
    def __init__(self, mem, k):
        self.mem, self.k = mem, k

    def __symlen__(self):
        from vp.sym import SInt
        return SInt(self.mem.l(self.k))

    def _ext(self, v, n):
        import z3
        from vp.sym import _nt
        m, k = self.mem, self.k
        l, d = m.l, m.d
        L = l(k)
        n = z3.If(n > 0, n, 0)
        vt = _nt(v, True)
        m.l = lambda b: z3.If(b == k, L + n, l(b))
        m.d = lambda b, i: z3.If(z3.And(b == k, i >= L), vt, d(b, i))

    def __iadd__(self, o):
        import z3
        from vp.sym import SRep
        if isinstance(o, SRep):
            self._ext(o.v, o.n.t)
        else:
            for v in o:
                self._ext(v, z3.IntVal(1))
        return self

    def extend(self, o):
        self.__iadd__(o)

    def append(self, v):
        self.__iadd__([v])

    def _idx(self, i):
        import z3
        from vp.sym import _nt, SBool
        t = _nt(i, False)
        if not bool(SBool(z3.And(t >= 0, t < self.mem.l(self.k)))):
            if bool(SBool(z3.And(t < 0, t >= -self.mem.l(self.k)))):
                return t + self.mem.l(self.k)
            raise IndexError
        return t

    def __getitem__(self, i):
        from vp.sym import SReal
        return SReal(self.mem.d(self.k, self._idx(i)))

    def __setitem__(self, i, v):
        import z3
        from vp.sym import _nt
        t = self._idx(i)
        m, k, d = self.mem, self.k, self.mem.d
        vt = _nt(v, True)
        m.d = lambda b, j: z3.If(z3.And(b == k, j == t), vt, d(b, j))


def prove_ints():
    """ensure_int accepts exactly the integral finite doubles and returns their value"""
    import z3
    from vp import pysrc
    from vp.sym import Ctx, FP, SReal, same_double, fpv, lift_real
    I = pysrc.load("sonolus.backend.interpret")
    c = Ctx("ensure_int")

    def run():
        x = FP.var("value")
        t = x.t
        ok = z3.And(z3.Not(z3.fpIsNaN(t)), z3.Not(z3.fpIsInf(t)), z3.fpEQ(t, z3.fpRoundToIntegral(z3.RTZ(), t)))
        try:
            r = I.Interpreter().ensure_int(x)
        except (AssertionError, ValueError, OverflowError):
            c.prove("rejects-only-non-integers", z3.Not(ok))
            return
        c.cover("accepted")
        c.prove("accepts-only-integers", ok)
        c.prove("keeps-value", z3.fpEQ(r.t, t))
    c.run(run)
    # dispatch through get/set: a non-integer address is rejected
    c2 = Ctx("get:address")

    def run2():
        x = SReal.var("index")
        try:
            I.Interpreter().ensure_int(x)
        except AssertionError:
            c2.prove("non-integer", z3.Not(z3.IsInt(x.t)))
            return
        c2.prove("integer", z3.IsInt(x.t))
    c2.run(run2)
    return merge(pack(c), pack(c2))


# ---------------------------------------------------------------- bounded: nested trees
def _tree(r, d, inloop, block):
    from sonolus.backend.node import FunctionNode
    from sonolus.backend.ops import Op
    F = lambda op, *a: FunctionNode(Op[op], tuple(a))
    T = lambda: _tree(r, d - 1, inloop, block)
    if d <= 0 or r.random() < 0.12:
        return r.choice([0, 1, 2, 3, -1, 0.5, 4.0, 2.5])
    cell = lambda: (r.choice([1, 2]), r.randint(0, 4))
    k = r.random()
    if k < 0.22:
        return F("Get", *cell())
    if k < 0.4:
        return F("Set", *cell(), T())
    if k < 0.52:
        op = r.choice(["SetAdd", "SetSubtract", "SetMultiply", "SetDivide", "SetMod", "SetRem", "SetPower", "IncrementPre", "IncrementPost",
                       "DecrementPre", "DecrementPost", "Set", "Get"])
        form = r.choice(["", "Pointed", "Shifted"])
        a = list(cell())
        if form == "Pointed":
            a += [r.randint(0, 2)]
        elif form == "Shifted":
            a += [r.randint(0, 2), r.randint(0, 2)]
        if r.random() < 0.3:
            a[r.randrange(len(a))] = T()
        if op.startswith("Set"):
            a.append(T())
        return F(op + form, *a)
    if k < 0.6:
        return F(r.choice(["Execute", "Execute0", "And", "Or"]), *[T() for _ in range(r.randint(0, 4))])
    if k < 0.66:
        return F("If", T(), T(), T())
    if k < 0.72:
        op = r.choice(["Switch", "SwitchWithDefault", "SwitchInteger", "SwitchIntegerWithDefault"])
        n = r.randint(0, 3)
        a = [T()] + [T() for _ in range(2 * n if op in ("Switch", "SwitchWithDefault") else n)]
        if op.endswith("Default"):
            a.append(T())
        return F(op, *a)
    if k < 0.76:
        # bounded loop: a counter cell of its own
        n = 20 + d
        body = _tree(r, d - 1, True, block)
        test = F("Less", F("IncrementPost", 9, n), r.randint(0, 4))
        return F("Execute", F("Set", 9, n, 0), F("While", test, body) if r.random() < 0.5 else F("DoWhile", body, test))
    if k < 0.8:
        n = r.randint(1, 4)
        return F("JumpLoop", *[r.choice([T(), r.randint(0, n), i + 1]) for i in range(n)])
    if k < 0.86:
        return F("Block", _tree(r, d - 1, inloop, block + 1))
    if k < 0.9 and block:
        return F("Break", r.randint(1, block), T())
    if k < 0.92:
        return F("Copy", r.choice([1, 2]), r.randint(0, 3), r.choice([1, 2]), r.randint(0, 3), r.randint(0, 4))
    if k < 0.94:
        return F("DebugLog", T())
    op = r.choice(["Add", "Subtract", "Multiply", "Divide", "Mod", "Rem", "Equal", "Less", "GreaterOr", "NotEqual", "Max", "Min"])
    n = 2 if op not in ("Add", "Subtract", "Multiply", "Divide", "Mod", "Rem") else r.randint(0, 4)
    if r.random() < 0.3:
        return F(r.choice(["Negate", "Abs", "Not", "Sign", "Floor", "Ceil", "Trunc", "Round", "Frac"]), T())
    return F(op, *[T() for _ in range(n)])


def _compare(tree):
    """None or a description; and whether the run did something"""
    from vp import rtspec
    from sonolus.backend import interpret as I
    from sonolus.backend.node import FunctionNode

    def budget(obj, name):
        # JumpLoop may not terminate: cut both sides after the same number of evaluations
        cnt = [0]
        f = getattr(obj, name)

        def g(n):
            cnt[0] += 1
            if cnt[0] > 3000:
                raise TimeoutError
            return f(n)
        setattr(obj, name, g)

    it = I.Interpreter()
    sp = rtspec.Spec(lambda n: isinstance(n, FunctionNode))
    budget(it, "run")
    budget(sp, "ev")
    out = []
    for f, brk in ((lambda: sp.ev(tree), rtspec.SpecBreak), (lambda: it.run(tree), I.BreakException)):
        try:
            v = f()
            out.append(("value", v if isinstance(v, complex) else bits(v + 0.0)))
        except brk as e:
            out.append(("break", e.n, bits(getattr(e, "value", getattr(e, "v", 0)) + 0.0)))
        except (TimeoutError, rtspec.ComplexValue):
            return None, False
        except (ArithmeticError, ValueError, AssertionError, TypeError, rtspec.SpecError):
            out.append(("error",))
    if out[0] != out[1]:
        return f"interpreter {out[1]}, specification {out[0]}", True
    if out[0] == ("error",):
        return None, False
    if any(isinstance(v, complex) for v in sp.mem.values()) or any(isinstance(x, complex) for x in sp.log):
        return None, False
    m1 = {(b, i): bits(v) for b, l in it.blocks.items() for i, v in enumerate(l) if not (isinstance(v, complex)) and v != -1.0}
    m2 = {k: bits(v) for k, v in sp.mem.items() if v != -1.0}
    if m1 != m2:
        return f"memory {m1} differs from {m2}", True
    if [bits(x) for x in it.log] != [bits(x) for x in sp.log]:
        return "log differs", True
    return None, bool(sp.mem) or out[0][0] == "break"


def sweep(seed, n):
    r = random.Random(seed)
    ev, nt, viol, samples = 0, set(), [], []
    for _ in range(n):
        t = _tree(r, r.randint(2, 6), False, 0)
        try:
            what, did = _compare(t)
        except RecursionError:
            continue
        ev += 1
        if did:
            nt.add(hash(t))
            if len(samples) < 2 and len(str(t)) < 400:
                samples.append(str(t))
        if what:
            viol.append({"key": "tree", "what": what, "input": repr(t)})
            break
    # valid and invalid addresses
    from sonolus.backend.interpret import Interpreter
    for b, i, ok in ((0, 0, True), (0, 65535, True), (0, 65536, False), (0, -1, False), (0, 0.5, False), (-5, 3, True), (0.5, 0, False),
                     (1e5, 2, True)):
        ev += 2
        for f in (lambda x: x.get(b, i), lambda x: x.set(b, i, 4.0)):
            try:
                f(Interpreter())
                good = True
            except AssertionError:
                good = False
            if good != ok:
                viol.append({"key": f"address:{b}:{i}", "what": f"address ({b}, {i}) {'accepted' if good else 'rejected'}", "input": [b, i]})
    return {"violations": viol, "bounded": {"name": "nested trees", "evaluations": ev, "distinct": len(nt), "samples": samples,
                                            "bound": f"depth <= 6, {n} trees"}}


def replay(o):
    """a directed search: trees built around the operation of the failed obligation"""
    name = o["name"].split(":")[1].split("/")[0]
    r = random.Random(7)
    from sonolus.backend.node import FunctionNode
    from sonolus.backend.ops import Op
    if name not in Op.__members__:
        return sweep(3, 3000)
    for k in range(40000):
        for n in _ar(name):
            ints = set(_int_positions(name, n))
            args = []
            for i in range(n):
                v = r.randint(0, 3) if i in ints else draw(r) if r.random() < 0.6 else float(r.randint(-3, 3))
                if r.random() < 0.35:
                    cell = (2, r.randint(0, 3))
                    v = FunctionNode(Op.Set, (*cell, v)) if r.random() < 0.6 else FunctionNode(Op.SetAdd, (*cell, v))
                args.append(v)
            pre = [FunctionNode(Op.Set, (b, i, float(r.randint(0, 3)))) for b in (0, 1, 2, 3) for i in range(3)] if r.random() < 0.7 else []
            t = FunctionNode(Op.Execute, (*pre, FunctionNode(Op[name], tuple(args))))
            what, _ = _compare(t)
            if what:
                return {"violations": [{"key": f"op:{name}", "what": what, "input": repr(t)}]}
    return {}
