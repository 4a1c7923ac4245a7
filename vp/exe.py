"""Two executors used as oracles:

* ``run_cfg``   executes an *input* control flow graph directly (source semantics)
* ``run_node``  executes an emitted engine node tree (runtime semantics, from vp.rtspec)

Both produce the ordered log of externally visible effects (writes outside temporary memory,
runtime calls with their arguments).  Neither uses interpret.py.
"""
import math

from vp import rtspec

TEMP = 10000
MEMOPS = {"Get", "Set", "IncrementPre", "IncrementPost", "DecrementPre", "DecrementPost", *rtspec.RMW}


class Reject(Exception):
    """the program is outside the language (the reference execution hits an undefined operation)"""


class OutOfFuel(Exception):
    pass


class Brk(Exception):
    def __init__(self, n, v):
        self.n, self.v = n, v


class _M(rtspec.Spec):
    def __init__(self):
        super().__init__(lambda n: False)


_SPEC = _M()
_EASE = {}
NAN = math.nan


def norm(v):
    """numbers compare by value; the sign of zero is not observable"""
    if v == 0:
        return 0
    if v != v:
        return "nan"
    return v


def _h(*a):
    h = 1469598103
    for x in a:
        for ch in repr(x):
            h = (h * 16777619 ^ ord(ch)) & 0xFFFFFFFF
    return h


def _nk(v):
    v = norm(v)
    return v if v == "nan" else float(v)


RESULTS = (0, 1, 2, 3, -1, 0.5, 7, 4, 1.25, -2.5)


def apply_op(op, vals, strict):
    """value of a pure operation; ``strict``: an undefined operation rejects the program (reference
    run), otherwise it yields NaN (a speculated, unused value may be undefined)"""
    f = rtspec.STRICT.get(op)
    vals = [float(v) for v in vals]
    try:
        if f is not None:
            if strict:
                if op in ("Equal", "NotEqual") and vals[0] != vals[1] and abs(vals[0] - vals[1]) < 1e-9:
                    raise Reject("nearly equal")        # known finding C08: case renumbering rounds
                if op in ("Max", "Min", "Clamp") and any(v != v for v in vals):
                    raise Reject("order of NaN operands")
                if op == "Arctan2" and (vals[0] == 0 or vals[1] == 0):
                    raise Reject("sign of zero")
            return float(f(_SPEC, *vals))
        f = rtspec.FOLD.get(op)
        if f is not None:
            if not vals:
                return 0.0
            acc = vals[0]
            for v in vals[1:]:
                if strict:
                    if op == "Multiply" and not (math.isfinite(acc) and math.isfinite(v)):
                        raise Reject("0 * inf")
                    if op == "Power" and acc == 0:
                        raise Reject("sign of zero")
                acc = float(f(_SPEC, acc, v))
            return acc
        if op.startswith("Ease"):
            g = _EASE.get(op)
            if g is None:
                from sonolus.backend.interpret import _EASE_FUNCS
                from sonolus.backend.ops import Op
                g = _EASE[op] = _EASE_FUNCS[Op[op]]
            return float(g(*vals))
    except (ArithmeticError, ValueError, TypeError, rtspec.ComplexValue, rtspec.SpecError) as e:
        if strict:
            raise Reject(f"{op}{vals}: {e}") from None
        return NAN
    raise KeyError(op)


class World:
    """memory and the runtime"""
    log_random = False      # the number of draws is observed
    draws = 0
    result = None

    def finish(self):
        if self.log_random:
            self.log.append(("draws", float(self.draws)))

    def __init__(self, mem, strict):
        self.mem = dict(mem)
        self.mem[3000, 0], self.mem[3000, 1], self.mem[3000, 2] = NAN, math.inf, -math.inf
        self.log = []
        self.strict = strict
        self.counts = {}
        self.stackeff = 0

    def addr(self, b, i):
        try:
            bb, ii = int(b), int(i)
        except (ValueError, OverflowError):
            raise Reject("address") from None
        if bb != b or ii != i or not 0 <= ii <= 65535:
            raise Reject(f"address {b}[{i}]")
        return bb, ii

    def toint(self, v, n):
        """a jump target"""
        return int(v)

    def index(self, i, size):
        """an array index"""
        if not 0 <= i < size or i != int(i):
            raise Reject("array index")
        return int(i)

    def case(self, t, n):
        """the integer case a test selects, or None"""
        return int(t) if t == t and 0 <= t < n and t == int(t) else None

    def get(self, b, i):
        try:
            return self.mem.get(self.addr(b, i), -1.0)
        except Reject:
            if self.strict:
                raise
            return NAN

    def set(self, b, i, v):
        a = self.addr(b, i)
        self.mem[a] = v
        if a[0] != TEMP:
            self.log.append(("w", a[0], a[1], _nk(v)))
        return v

    def call(self, op, vals):
        """runtime functions other than arithmetic and memory"""
        name = op.name
        k = tuple(_nk(v) for v in vals)
        if name == "DebugLog":
            self.log.append(("log", *k))
            return 0.0
        if name == "Copy":
            sb, si, db, di, n = vals
            rd = [self.get(sb, si + j) for j in range(int(n))]
            for j, v in enumerate(rd):
                self.set(db, di + j, v)
            return 0.0
        if op.side_effects:
            self.log.append((name, *k))
            if name.startswith("Stack"):
                self.stackeff += 1
            return RESULTS[_h(name, k, len(self.log)) % len(RESULTS)]
        if op.pure:
            return RESULTS[_h(name, k) % len(RESULTS)]
        if name.startswith("StackGet"):
            return RESULTS[_h(name, k, self.stackeff) % len(RESULTS)]
        if name in ("Random", "RandomInteger"):
            # every draw is a fresh value: identified by its (unique) bounds and the effects before it
            c = len(self.log)
            if self.log_random:
                self.draws += 1
            lo, hi = vals
            if name == "Random":
                return lo + (hi - lo) * (((c * 7 + _h(name, k)) % 97) / 97.0)
            return lo + (_h(name, k) + c * 5) % max(1, int(hi - lo))
        raise KeyError(name)


def memform(name):
    """(base operation, addressing form) of a memory operation, or None"""
    for form in ("Pointed", "Shifted", ""):
        if name.endswith(form):
            base = name[: len(name) - len(form)] if form else name
            if base in MEMOPS:
                return base, form
    return None


def memop(base, form, cs):
    k = {"": 2, "Pointed": 3, "Shifted": 4}[form]
    ad, rest = cs[:k], cs[k:]
    if form == "":
        def place(w, a):
            return a[0], a[1]
    elif form == "Pointed":
        def place(w, a):
            return w.get(a[0], a[1]), w.get(a[0], a[1] + 1) + a[2]
    else:
        def place(w, a):
            return a[0], a[1] + a[2] * a[3]
    if base == "Get":
        return lambda w: w.get(*place(w, [c(w) for c in ad]))
    if base == "Set":
        def f(w):
            a = [c(w) for c in ad]
            v = rest[0](w)
            return w.set(*place(w, a), v)
        return f
    if base in rtspec.RMW:
        o = rtspec.RMW[base]

        def f(w):
            a = [c(w) for c in ad]
            v = rest[0](w)
            b, i = place(w, a)
            return w.set(b, i, apply_op(o, [w.get(b, i), v], w.strict))
        return f
    d = 1 if base.startswith("Inc") else -1
    post = base.endswith("Post")

    def f(w):
        b, i = place(w, [c(w) for c in ad])
        o = w.get(b, i)
        w.set(b, i, o + d)
        return o + d if post else o
    return f


# ---------------------------------------------------------------- node trees
class NodeRun:
    def __init__(self, node, fuel=2_000_000):
        from sonolus.backend.node import FunctionNode
        self.FN = FunctionNode
        self.memo = {}
        self.bad = []
        self.f = self.compile(node)

    def compile(self, n):
        k = id(n)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = (self._compile(n), n)
        return r[0]

    def _compile(self, n):
        if not isinstance(n, self.FN):
            if isinstance(n, float) and not math.isfinite(n):
                self.bad.append(n)
            return lambda w, n=n: n
        op = n.func
        name = op.name
        cs = [self.compile(a) for a in n.args]
        mf = memform(name)
        if mf:
            return memop(*mf, cs)
        if name == "Block":
            c = cs[0]

            def f(w):
                try:
                    return c(w)
                except Brk as e:
                    if e.n > 1:
                        raise Brk(e.n - 1, e.v) from None
                    return e.v
            return f
        if name == "JumpLoop":
            n_ = len(cs)

            def f(w):
                i = 0
                while True:
                    w.fuel -= 1
                    if w.fuel < 0:
                        raise OutOfFuel
                    if not 0 <= i < n_:
                        return 0.0
                    if i == n_ - 1:
                        return cs[i](w)
                    i = w.toint(cs[i](w), n_)
            return f
        if name in ("Execute", "Execute0"):
            z = name == "Execute0"

            def f(w):
                r = 0.0
                for c in cs:
                    r = c(w)
                return 0.0 if z else r
            return f
        if name == "If":
            a, b, c = cs
            return lambda w: b(w) if a(w) != 0 else c(w)
        if name in ("Switch", "SwitchWithDefault"):
            d = name == "SwitchWithDefault"
            body = cs[1:-1] if d else cs[1:]

            def f(w):
                t = cs[0](w)
                for i in range(0, len(body), 2):
                    if body[i](w) == t:
                        return body[i + 1](w)
                return cs[-1](w) if d else 0.0
            return f
        if name in ("SwitchInteger", "SwitchIntegerWithDefault"):
            d = name == "SwitchIntegerWithDefault"
            body = cs[1:-1] if d else cs[1:]

            def f(w):
                t = cs[0](w)
                k = w.case(t, len(body))
                if k is not None:
                    return body[k](w)
                return cs[-1](w) if d else 0.0
            return f
        if name == "And":
            def f(w):
                r = 0.0
                for c in cs:
                    r = c(w)
                    if r == 0:
                        break
                return r
            return f
        if name == "Or":
            def f(w):
                r = 0.0
                for c in cs:
                    r = c(w)
                    if r != 0:
                        break
                return r
            return f
        if name == "While":
            def f(w):
                while cs[0](w) != 0:
                    w.fuel -= 1
                    if w.fuel < 0:
                        raise OutOfFuel
                    cs[1](w)
                return 0.0
            return f
        if name == "DoWhile":
            def f(w):
                while True:
                    cs[0](w)
                    w.fuel -= 1
                    if w.fuel < 0:
                        raise OutOfFuel
                    if cs[1](w) == 0:
                        return 0.0
            return f
        if name == "Break":
            def f(w):
                k = cs[0](w)
                raise Brk(k, cs[1](w))
            return f
        if name in rtspec.STRICT or name in rtspec.FOLD or name.startswith("Ease"):
            return lambda w: apply_op(name, [c(w) for c in cs], w.strict)
        return lambda w: w.call(op, [c(w) for c in cs])

    def run(self, mem, fuel):
        w = World(mem, False)
        w.fuel = fuel
        r = self.f(w)
        w.finish()
        return w, r


# ---------------------------------------------------------------- input graphs
def returns(st, w):
    """performs the statements; a Break(1, v) ends the callback with the result v"""
    for s in st:
        s(w)
        if w.log and w.log[-1][0] == "Break":
            _, k, v = w.log.pop()
            if not isinstance(k, float) or k != 1:
                raise Reject("Break")
            w.result = v
            return True
    return False


class CfgRun:
    def __init__(self, entry):
        from sonolus.backend.ir import IRConst, IRGet, IRInstr, IRPureInstr, IRSet
        from sonolus.backend.place import BlockPlace, TempBlock
        self.T = (IRConst, IRGet, IRInstr, IRPureInstr, IRSet, BlockPlace, TempBlock)
        self.entry = entry
        self.blocks = {}

    def block(self, b):
        r = self.blocks.get(b)
        if r is None:
            st = [self.stmt(s) for s in b.statements]
            conds = {}
            default = None
            for e in b.outgoing:
                if e.cond is None:
                    default = e.dst
                else:
                    conds[e.cond] = e.dst
            r = self.blocks[b] = (st, self.val(b.test), conds, default)
        return r

    def run(self, mem, fuel):
        w = World(mem, True)
        w.temps = {}
        b = self.entry
        steps = 0
        while b is not None:
            steps += 1
            if steps > fuel:
                raise OutOfFuel
            st, test, conds, default = self.block(b)
            if returns(st, w):
                w.exited = True
                break
            t = test(w)
            if conds and t == t and t not in conds and any(abs(t - c) < 1e-9 for c in conds):
                raise Reject("nearly equal")
            w.exited = not conds and default is None       # through a block without successors
            b = conds.get(t, default) if t == t else default
        w.steps = steps
        w.finish()
        return w

    def stmt(self, s):
        IRConst, IRGet, IRInstr, IRPureInstr, IRSet, BlockPlace, TempBlock = self.T
        if isinstance(s, IRSet):
            kind, ad = self.place(s.place)
            v = self.val(s.value)
            if kind == "t":
                name, size, idx = ad

                def f(w):
                    i = idx(w)
                    x = v(w)
                    w.temps[name, w.index(i, size)] = x
            else:
                blk, idx = ad

                def f(w):
                    b, i = blk(w), idx(w)
                    w.set(b, i, v(w))
            return f
        return self.val(s)

    def place(self, p):
        IRConst, IRGet, IRInstr, IRPureInstr, IRSet, BlockPlace, TempBlock = self.T
        off = p.offset
        ix = p.index
        if isinstance(ix, (int, float)):
            idx = lambda w, k=ix + off: k
        else:
            iv = self.val(ix)
            idx = (lambda w: iv(w) + off) if off else iv
        if isinstance(p.block, TempBlock):
            return "t", ((p.block.name, p.block.size), p.block.size, idx)
        if isinstance(p.block, (int, float)):
            blk = lambda w, k=int(p.block): k
        else:
            blk = self.val(p.block)
        return "m", (blk, idx)

    def val(self, e):
        IRConst, IRGet, IRInstr, IRPureInstr, IRSet, BlockPlace, TempBlock = self.T
        if isinstance(e, (int, float)):
            return lambda w: e
        if isinstance(e, IRConst):
            v = e.value
            return lambda w: v
        if isinstance(e, IRGet):
            e = e.place
        if isinstance(e, BlockPlace):
            kind, ad = self.place(e)
            if kind == "t":
                name, size, idx = ad

                def f(w):
                    i = idx(w)
                    try:
                        return w.temps[name, w.index(i, size)]
                    except KeyError:
                        raise Reject("uninitialised") from None
                return f
            blk, idx = ad
            return lambda w: w.get(blk(w), idx(w))
        if isinstance(e, (IRInstr, IRPureInstr)):
            op = e.op
            name = op.name
            cs = [self.val(a) for a in e.args]
            if name == "If":
                a, b, c = cs
                return lambda w: b(w) if a(w) != 0 else c(w)
            if name in ("SwitchWithDefault", "Switch"):
                d = name == "SwitchWithDefault"
                body = cs[1:-1] if d else cs[1:]

                def f(w):
                    t = cs[0](w)
                    for i in range(0, len(body), 2):
                        if body[i](w) == t:
                            return body[i + 1](w)
                    return cs[-1](w) if d else 0.0
                return f
            if name in ("SwitchIntegerWithDefault", "SwitchInteger"):
                d = name == "SwitchIntegerWithDefault"
                body = cs[1:-1] if d else cs[1:]

                def f(w):
                    t = cs[0](w)
                    k = w.case(t, len(body))
                    if k is not None:
                        return body[k](w)
                    return cs[-1](w) if d else 0.0
                return f
            if name in ("And", "Or"):
                def f(w):
                    vs = [c(w) for c in cs]
                    for v in vs[:-1]:
                        if (v == 0) == (name == "And"):
                            return v
                    return vs[-1]
                return f
            if name in rtspec.STRICT or name in rtspec.FOLD or name.startswith("Ease"):
                return lambda w: apply_op(name, [c(w) for c in cs], True)
            mf = memform(name)
            if mf:
                return memop(*mf, cs)
            return lambda w: w.call(op, [c(w) for c in cs])
        raise TypeError(type(e))


def difference(a, b):
    """first difference of two effect logs (or None)"""
    if a == b:
        return None
    for n, (x, y) in enumerate(zip(a, b)):
        if x != y and not all(p == q or (isinstance(p, float) and isinstance(q, float) and p != p and q != q) for p, q in zip(x, y)):
            return f"effect {n}: expected {x}, got {y}"
    if len(a) != len(b):
        n = min(len(a), len(b))
        return f"effect {n}: expected {a[n] if n < len(a) else 'end'}, got {b[n] if n < len(b) else 'end'}"
    return None
