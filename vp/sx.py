"""Symbolic execution of a front-end control flow graph: memory cells hold terms (mathematical integers, reals or
IEEE doubles), branches fork the current vp.sym context, a loop without a decided exit ends in Unsupported."""
import math

import z3

from vp import rtspec, sym
from vp.sym import FP, SBool, SInt, SReal, Sym, Unsupported, fresh

ROM = 3000


class Undefined(Exception):
    """an operation without a result (division by zero, logarithm of a negative number, ...)"""


class Crash(Exception):
    """an access outside any storage"""


class Quot(SReal):
    """the quotient of two integers, kept apart so that its floor is integer division"""
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        super().__init__(z3.simplify(z3.ToReal(n) / z3.ToReal(d)))
        self.n, self.d = n, d

    def fdiv(self):
        q, r = fresh("q", z3.IntSort()), fresh("r", z3.IntSort())
        sym.Ctx.cur.axiom(is_division(self.n, self.d, q, r))
        division(self.n, self.d, q, r)
        return SInt(q)

    def cdiv(self):
        q, r = fresh("q", z3.IntSort()), fresh("r", z3.IntSort())
        c = sym.Ctx.cur
        c.axiom(z3.And(self.n == q * self.d - r, z3.If(self.d > 0, z3.And(r >= 0, r < self.d), z3.And(r <= 0, r > self.d))))
        return SInt(q)

    def __floor__(self):
        return self.fdiv()

    def __ceil__(self):
        return self.cdiv()

    def __trunc__(self):
        return self.fdiv() if bool(SBool(z3.Or(self.n == 0, (self.n > 0) == (self.d > 0)))) else self.cdiv()


def is_division(n, d, q, r):
    return z3.And(n == q * d + r, z3.If(d > 0, z3.And(r >= 0, r < d), z3.And(d < 0, r <= 0, r > d)))


def unique(a, b):
    """floor division is unique, also of -n by -d (proved in division_lemmas)"""
    (n1, d1, q1, r1), (n2, d2, q2, r2) = a, b
    both = z3.And(is_division(*a), is_division(*b))
    return z3.And(z3.Implies(z3.And(n1 == n2, d1 == d2, both), z3.And(q1 == q2, r1 == r2)), z3.Implies(z3.And(n1 == -n2, d1 == -d2, both), z3.And(q1 == q2, r1 == -r2)))


def signs(n, d, q, r):
    """the sign of a quotient (proved in division_lemmas)"""
    return z3.Implies(is_division(n, d, q, r), z3.And(z3.Implies(z3.And(d > 0, n >= 0), q >= 0), z3.Implies(z3.And(d > 0, n < 0), q < 0), z3.Implies(z3.And(d < 0, n <= 0), q >= 0), z3.Implies(z3.And(d < 0, n > 0), q < 0)))


def division(n, d, q, r):
    """q, r are used as quotient and remainder of n by d: instances of the lemmas with every other division of this path"""
    c = sym.Ctx.cur
    t = (n, d, q, r)
    c.axiom(signs(*t))
    for k in c.local:
        if isinstance(k, tuple) and k[0] == "division":
            c.axiom(unique(k[1], t))
    c.local.append(("division", t))


POW2 = z3.Function("pow2", z3.IntSort(), z3.RealSort())


def pow2(e):
    """2 ** e for an integer e: 2 ** 0 = 1, and 2 ** e2 >= 2 * 2 ** e1 > 0 for e1 < e2 (both from 2 ** (e + 1) = 2 * 2 ** e, by induction)"""
    c = sym.Ctx.cur
    t = e.t
    p = POW2(t)
    c.axiom(z3.And(p > 0, POW2(0) == 1, z3.Implies(t > 0, p >= 2), z3.Implies(t < 0, p * 2 <= 1)))
    for k in c.local:
        if isinstance(k, tuple) and k[0] == "pow2":
            o = k[1]
            c.axiom(z3.And(z3.Implies(o < t, p >= 2 * POW2(o)), z3.Implies(t < o, POW2(o) >= 2 * p), z3.Implies(o == t, p == POW2(o))))
    c.local.append(("pow2", t))
    return SReal(p)


def division_lemmas():
    """the lemmas above for all integers, by case distinction on the sign of q1 - q2 and the product lemma x >= 0, y >= 0 -> x * y >= 0"""
    n, d, q, r, q2, r2, j = z3.Ints("n d q r q2 r2 j")
    out = []

    def valid(name, g, ms=20000):
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(z3.Not(g))
        x = s.check()
        out.append((name, "proved" if x == z3.unsat else "undecided"))
    prod = z3.Implies(z3.And(j >= 0, d > 0), j * d >= 0)
    valid("product of non-negatives", prod)
    # q = q2 + 1 + j
    valid("unique quotient, d > 0", z3.Implies(z3.And(d > 0, j >= 0, j * d >= 0, r >= 0, r < d, r2 >= 0, r2 < d, q2 * d + d + j * d + r == q2 * d + r2), False))
    # d < 0: divide -n by -d; the remainders change sign
    valid("negation", z3.Implies(z3.And(d < 0, is_division(n, d, q, r)), z3.And(-n == q * -d + -r, -r >= 0, -r < -d)))
    valid("negation back", z3.Implies(z3.And(d > 0, is_division(n, d, q, r)), is_division(-n, -d, q, -r)))
    # signs for d > 0: q = -1 - j gives q * d + r = -d - j * d + r < 0; q = j gives n >= 0
    valid("sign, q < 0", z3.Implies(z3.And(d > 0, j * d >= 0, r >= 0, r < d, n == -d - j * d + r), n < 0))
    valid("sign, q >= 0", z3.Implies(z3.And(d > 0, j * d >= 0, r >= 0, r < d, n == j * d + r), n >= 0))
    return out


def const(v):
    v = float(v)
    return int(v) if v.is_integer() and abs(v) < 2 ** 62 else v


def truth(c, like=()):
    """the runtime's 0 / 1 of a condition"""
    if isinstance(c, SBool):
        if any(isinstance(x, FP) for x in like):
            return FP(z3.If(c.t, sym.fpv(1.0), sym.fpv(0.0)))
        return SInt(z3.If(c.t, z3.IntVal(1), z3.IntVal(0)))
    return 1 if c else 0


def ite(c, a, b):
    if not isinstance(c, SBool):
        return a if c else b
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, FP) or isinstance(b, FP):
            x, y = sym.lift_fp(a), sym.lift_fp(b)
            return FP(z3.If(c.t, x.t, y.t))
        if isinstance(a, SReal) or isinstance(b, SReal) or isinstance(a, float) or isinstance(b, float):
            return SReal(z3.If(c.t, sym.lift_real(a).t, sym.lift_real(b).t))
        return SInt(z3.If(c.t, sym._nt(a, False), sym._nt(b, False)))
    if a is b or (a == b and type(a) is type(b)):
        return a
    if isinstance(a, int) and isinstance(b, int):
        return SInt(z3.If(c.t, z3.IntVal(a), z3.IntVal(b)))
    return SReal(z3.If(c.t, sym.realv(float(a)), sym.realv(float(b))))


def _div(a, b):
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and (isinstance(a, SInt) or isinstance(b, SInt)):
        if isinstance(b, int):
            if b == 0:
                raise ZeroDivisionError
        elif bool(SBool(b.t == 0)):
            raise ZeroDivisionError
        n, d = sym._nt(a, False), sym._nt(b, False)
        if z3.is_int_value(d) and abs(d.as_long()) == 1:
            return SInt(z3.simplify(n if d.as_long() == 1 else -n))
        return Quot(n, d)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if b == 0:
            raise ZeroDivisionError
        r = a / b
        return int(r) if isinstance(a, int) and isinstance(b, int) and a % b == 0 else r
    return a / b


def _mod(a, b):
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and (isinstance(a, SInt) or isinstance(b, SInt)):
        q = _div(a, b)
        if isinstance(q, SInt):
            return 0
        f = q.fdiv()
        return a - f * b
    return a % b


def _max(a, b):
    return ite(b > a, b, a)


def _min(a, b):
    return ite(b < a, b, a)


class M:
    """the math module over terms"""

    def __getattr__(self, n):
        return getattr(sym.MATH, n)

    def floor(self, x):
        return x.__floor__() if isinstance(x, Sym) else math.floor(x)

    def ceil(self, x):
        return x.__ceil__() if isinstance(x, Sym) else math.ceil(x)

    def trunc(self, x):
        return x.__trunc__() if isinstance(x, Sym) else math.trunc(x)


SPEC = rtspec.Spec(lambda n: False, m=M())
CMP = {"Equal": lambda a, b: a == b, "NotEqual": lambda a, b: a != b, "Greater": lambda a, b: a > b, "GreaterOr": lambda a, b: a >= b,
       "Less": lambda a, b: a < b, "LessOr": lambda a, b: a <= b}


def _unit(x):
    return _max(0, _min(1, x))


def _rsign(x):
    return ite(x > 0, 1, ite(x < 0, -1, 0))


OWN = {
    "Divide": _div, "Mod": _mod, "Max": _max, "Min": _min, "Sign": _rsign, "Negate": lambda x: -x,
    "Clamp": lambda x, a, b: _max(a, _min(b, x)),
    "LerpClamped": lambda a, b, t: a + (b - a) * _unit(t),
    "Unlerp": lambda a, b, x: _div(x - a, b - a), "UnlerpClamped": lambda a, b, x: _unit(_div(x - a, b - a)),
    "Remap": lambda a, b, c, d, x: c + _div((d - c) * (x - a), b - a),
    "RemapClamped": lambda a, b, c, d, x: c + (d - c) * _unit(_div(x - a, b - a)),
}
OWN["Rem"] = lambda a, b: a - M().trunc(_div(a, b)) * b


def lean(op, *a):
    """the value of a pure operation on terms"""
    try:
        if op in CMP:
            return truth(CMP[op](a[0], a[1]), a)
        if op == "Not":
            return truth(a[0] == 0, a)
        if op in OWN:
            if op in rtspec.FOLD:
                acc = a[0]
                for v in a[1:]:
                    acc = OWN[op](acc, v)
                return acc
            return OWN[op](*a)
        if op in rtspec.FOLD:
            acc = a[0] if a else 0
            for v in a[1:]:
                acc = rtspec.FOLD[op](SPEC, acc, v)
            return acc
        if op in rtspec.STRICT:
            return rtspec.STRICT[op](SPEC, *a)
    except (ArithmeticError, ValueError, rtspec.ComplexValue) as e:
        raise Undefined(f"{op}: {e}") from None
    raise Unsupported("operation " + op)


class Run:
    """one path of a graph; ``cell(b, i)`` gives the initial content of memory cell i of block b"""

    def __init__(self, entry, cell, rom=(), fuel=400, sizes=None, calls=None):
        self.cur = entry
        self.cell = cell
        self.mem = {}
        self.rom = list(rom)
        self.fuel = fuel
        self.sizes = sizes or {}        # block -> number of cells, for symbolic indices
        self.calls = calls or {}
        self.log = []
        self.ret = None
        self.visits = {}
        self.memo = {}

    # -- memory
    def key(self, p):
        from sonolus.backend.place import TempBlock
        b = p.block
        if isinstance(b, TempBlock):
            blk, size = ("t", b.name, b.size), b.size
        elif isinstance(b, (int, float)) and not isinstance(b, bool):
            blk, size = int(b), self.sizes.get(int(b))
        else:
            v = self.eval(b)
            if isinstance(v, Sym):
                v = self.pick(v, 0, 20000, hint=True)
            blk = int(v)
            size = self.sizes.get(blk)
        i = p.index
        i = i if isinstance(i, (int, float)) else self.eval(i)
        if not isinstance(i, Sym) and not isinstance(i, int):
            if float(i) != int(i):
                raise Crash(f"index {i}")
            i = int(i)
        i = i + p.offset
        if isinstance(i, Sym):
            if isinstance(i, SReal):
                i = SInt(z3.ToInt(i.t))
            if size is None:
                raise Unsupported(f"symbolic index into unbounded block {blk}")
            i = self.pick(i, 0, size)
        if size is not None and not 0 <= i < size:
            raise Crash(f"{blk}[{i}] of {size}")
        return blk, i

    def pick(self, i, lo, hi, hint=False):
        """the concrete value of an integer term in [lo, hi), one path each"""
        s = z3.simplify(i.t) if isinstance(i, SInt) else None
        if s is not None and z3.is_int_value(s):
            return s.as_long()
        if hint:
            raise Unsupported("symbolic block")
        if bool(i < lo) or bool(i >= hi):
            raise Crash(f"index outside [{lo}, {hi})")
        hi -= 1
        while lo < hi:
            m = (lo + hi) // 2
            if bool(i <= m):
                hi = m
            else:
                lo = m + 1
        return lo

    def load(self, k):
        b, i = k
        if k in self.mem:
            return self.mem[k]
        if isinstance(b, tuple):
            # temporary never written: arbitrary content
            v = self.mem[k] = SReal(fresh(f"undef", z3.RealSort()))
            return v
        if b == ROM and self.rom:
            v = self.rom[i]
            return const(v) if math.isfinite(v) else v
        v = self.mem[k] = self.cell(b, i)
        return v

    # -- expressions
    def eval(self, e):
        from sonolus.backend import ir
        from sonolus.backend.place import BlockPlace
        if isinstance(e, ir.IRConst):
            v = float(e.value)
            return const(v) if math.isfinite(v) else v
        if isinstance(e, ir.IRGet):
            return self.load(self.key(e.place))
        if isinstance(e, BlockPlace):
            return self.load(self.key(e))
        if isinstance(e, (int, float)):
            return const(e)
        op = e.op.name
        if op == "And":
            r = 0
            for x in e.args:
                r = self.eval(x)
                if bool(r == 0):
                    return r
            return r
        if op == "Or":
            r = 0
            for x in e.args:
                r = self.eval(x)
                if bool(r != 0):
                    return r
            return r
        if op == "If":
            return self.eval(e.args[1]) if bool(self.eval(e.args[0]) != 0) else self.eval(e.args[2])
        if op == "SwitchWithDefault":
            t = self.eval(e.args[0])
            for k, v in zip(e.args[1:-1:2], e.args[2:-1:2]):
                if bool(self.eval(k) == t):
                    return self.eval(v)
            return self.eval(e.args[-1])
        a = [self.eval(x) for x in e.args]
        if op == "Break":
            self.ret = a[1]
            self.log.append(("Break", tuple(a)))
            return 0
        if op == "Get":
            return self.load((int(self.pick(a[0], 0, 0, True) if isinstance(a[0], Sym) else a[0]), a[1]))
        f = self.calls.get(op)
        if f is not None:
            return f(self, *a)
        if op == "Power" and a[0] == 2 and isinstance(a[1], SInt):
            return pow2(a[1])
        if op in ("Random", "RandomInteger"):
            return self.random(op, *a)
        if op in rtspec.STRICT or op in rtspec.FOLD:
            return lean(op, *a)
        if op.startswith("Ease"):
            raise Unsupported(op)
        self.log.append((op, tuple(a)))
        return 0

    def random(self, op, a, b):
        """any result of the source: Random in [a, b), RandomInteger an integer in [a, b)"""
        c = sym.Ctx.cur
        if op == "Random":
            v = SReal(fresh("random", z3.RealSort()))
        else:
            v = SInt(fresh("randint", z3.IntSort()))
        c.assume(SBool(z3.And((v >= a).t, (v < b).t)) if isinstance(v >= a, SBool) else v >= a)
        self.log.append((op, (a, b, v)))
        return v

    # -- control
    def run(self):
        """executes to the exit; the path's final memory is in self.mem"""
        from sonolus.backend import ir
        cur = self.cur
        n = 0
        while True:
            n += 1
            if n > self.fuel:
                raise Unsupported("loop without a bound")
            for s in cur.statements:
                if isinstance(s, ir.IRSet):
                    # the stored value is evaluated after the address expressions' own reads
                    k = self.key(s.place)
                    v = self.eval(s.value)
                    self.mem[k] = v
                else:
                    self.eval(s)
                    if self.ret is not None:
                        return self
            edges = list(cur.outgoing)
            if not edges:
                return self
            t = None
            nxt = None
            conds = sorted((e for e in edges if e.cond is not None), key=lambda e: e.cond)
            if conds:
                t = self.eval(cur.test)
                for e in conds:
                    if bool(t == e.cond):
                        nxt = e.dst
                        break
            if nxt is None:
                d = [e for e in edges if e.cond is None]
                if not d:
                    return self
                nxt = d[0].dst
            cur = nxt


# ---------------------------------------------------------------- loops cut by invariants
def back_edges(entry):
    """(headers, {header: blocks of its loop}) of the reachable graph"""
    seen, onst, headers, preds, order = set(), set(), {}, {}, []
    st = [(entry, None)]
    # iterative depth-first search
    stack = [(entry, iter(sorted(entry.outgoing, key=lambda e: (e.cond is None, e.cond or 0))))]
    seen.add(entry)
    onst.add(entry)
    while stack:
        b, it = stack[-1]
        for e in it:
            preds.setdefault(e.dst, set()).add(b)
            if e.dst in onst:
                headers.setdefault(e.dst, set()).add(b)
            elif e.dst not in seen:
                seen.add(e.dst)
                onst.add(e.dst)
                stack.append((e.dst, iter(sorted(e.dst.outgoing, key=lambda x: (x.cond is None, x.cond or 0)))))
                break
        else:
            onst.discard(b)
            order.append(b)
            stack.pop()
    loops = {}
    for h, us in headers.items():
        body = {h}
        todo = [u for u in us]
        while todo:
            x = todo.pop()
            if x not in body:
                body.add(x)
                todo += preds.get(x, ())
        loops[h] = body
    return loops


class BackEdge(Exception):
    """the path returned to the loop header; its state is in .run"""

    def __init__(self, run):
        self.run = run


class CutRun(Run):
    """a run in which the (single) loop is cut: at the header every cell the loop assigns takes an arbitrary value
    satisfying the invariant for an arbitrary iteration number k"""

    def __init__(self, *a, header=None, body=(), invariant=None, start_at_header=False, **kw):
        super().__init__(*a, **kw)
        self.header, self.body, self.invariant = header, body, invariant
        self.k = None
        self.entry_mem = None
        self.at_entry = None
        self.havoc = {}

    def assigned(self):
        """cells assigned in the loop; a store through a computed address havocs its whole block"""
        from sonolus.backend import ir
        from sonolus.backend.place import TempBlock
        cells, blocks = set(), set()
        for b in self.body:
            for s in b.statements:
                if isinstance(s, ir.IRSet):
                    p = s.place
                    blk = ("t", p.block.name, p.block.size) if isinstance(p.block, TempBlock) else p.block
                    if isinstance(p.block, (TempBlock, int)) and isinstance(p.index, int):
                        cells.add((blk, p.index + p.offset))
                    elif isinstance(p.block, (TempBlock, int)):
                        blocks.add(blk)
                    else:
                        raise Unsupported("store through a pointer inside the loop")
        return cells, blocks

    def arrive(self):
        """cuts the loop at its header"""
        if self.k is not None:
            raise BackEdge(self)
        self.entry_mem = dict(self.mem)
        if self.at_entry is not None:
            self.at_entry(self)
        cells, blocks = self.assigned()
        self.k = SInt(fresh("k", z3.IntSort()))
        sym.Ctx.cur.assume(self.k >= 0)
        for c in sorted(cells, key=str):
            v0 = self.mem.get(c)
            self.mem[c] = self.havoc[c] = self.fresh_like(v0, c)
        for b in blocks:
            for c in [x for x in self.mem if x[0] == b]:
                self.mem[c] = self.havoc[c] = self.fresh_like(self.mem[c], c)
        for name, g in self.invariant(self.k, self.mem, self.entry_mem):
            sym.Ctx.cur.assume(g)

    def ill_typed(self):
        """a cell assumed to hold an integer at the header that the iteration leaves with something else"""
        return [c for c, h in self.havoc.items() if isinstance(h, SInt) and not isinstance(self.mem[c], (SInt, int))
                or isinstance(h, SReal) and isinstance(self.mem[c], FP) or isinstance(h, FP) and not isinstance(self.mem[c], FP)]

    def fresh_like(self, v, c):
        n = "h_" + "_".join(str(x) for x in (c[0] if isinstance(c[0], tuple) else (c[0],))[:2]) + f"_{c[1]}_"
        if isinstance(v, (SInt, int)):
            return SInt(fresh(n, z3.IntSort()))
        if isinstance(v, FP):
            return FP(fresh(n, z3.Float64()))
        return SReal(fresh(n, z3.RealSort()))

    def run(self):
        from sonolus.backend import ir
        cur = self.cur
        n = 0
        while True:
            n += 1
            if n > self.fuel:
                raise Unsupported("loop without a bound")
            if cur is self.header:
                self.arrive()
            for s in cur.statements:
                if isinstance(s, ir.IRSet):
                    k = self.key(s.place)
                    self.mem[k] = self.eval(s.value)
                else:
                    self.eval(s)
                    if self.ret is not None:
                        return self
            nxt = self.step(cur)
            if nxt is None:
                return self
            cur = nxt

    def step(self, cur):
        edges = list(cur.outgoing)
        conds = sorted((e for e in edges if e.cond is not None), key=lambda e: e.cond)
        if conds:
            t = self.eval(cur.test)
            for e in conds:
                if bool(t == e.cond):
                    return e.dst
        d = [e for e in edges if e.cond is None]
        return d[0].dst if d else None
