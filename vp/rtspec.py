"""Specification of the runtime's node semantics, written from the engine documentation and
independent of interpret.py.  ``Spec`` evaluates a node tree over any value domain (Python
numbers, or symbolic ones); sub-terms are evaluated through ``ev`` and memory through
``mget``/``mset`` so that a proof can replace them by their contracts."""
import math


class SpecError(Exception):
    """the runtime rejects this"""


class SpecBreak(Exception):
    def __init__(self, n, v):
        self.n, self.v = n, v


def _isint(x):
    return x == math.floor(x)


class Spec:
    def __init__(self, isnode, intof=None, m=math, conv=None):
        self.isnode = isnode
        self.mem = {}
        self.log = []
        self.m = m
        self.intof_ = intof

    # -- contracts of the parts
    def ev(self, n):
        return self.run(n) if self.isnode(n) else n

    def int(self, x):
        if self.intof_ is not None:
            return self.intof_(x)
        if isinstance(x, float) and (x != x or x in (math.inf, -math.inf)):
            raise SpecError("not an integer")
        if x != int(x):
            raise SpecError("not an integer")
        return int(x)

    def addr(self, b, i):
        b, i = self.int(b), self.int(i)
        if not (0 <= i <= 65535):
            raise SpecError("index out of range")
        return b, i

    def mget(self, b, i):
        return self.mem.get(self.addr(b, i), -1.0)

    def mset(self, b, i, v):
        self.mem[self.addr(b, i)] = v
        return v

    # -- places
    def place(self, form, it):
        """evaluates the address arguments of a plain / Pointed / Shifted access, left to right;
        returns a thunk giving (block, index) (reading the pointer cells for Pointed)"""
        if form == "":
            b, i = it(), it()
            return lambda: (self.int(b), self.int(i))
        if form == "Pointed":
            b, i, o = it(), it(), it()

            def p():
                bb, ii, oo = self.int(b), self.int(i), self.int(o)
                return self.mget(bb, ii), self.mget(bb, ii + 1) + oo
            return p
        b, o, i, s = it(), it(), it(), it()
        return lambda: (self.int(b), self.int(o) + self.int(i) * self.int(s))

    def run(self, node):
        op = node.func.name
        a = list(node.args)
        pos = [0]

        def it():
            pos[0] += 1
            return self.ev(a[pos[0] - 1])

        for form in ("Pointed", "Shifted", ""):
            if op.endswith(form):
                base = op[: len(op) - len(form)] if form else op
                if base in ("Get", "Set", "IncrementPre", "IncrementPost", "DecrementPre", "DecrementPost") or base in RMW:
                    return self.access(base, form, it)
        f = getattr(self, "op_" + op, None)
        if f is not None:
            return f(a)
        if op in STRICT:
            vals = [self.ev(x) for x in a]
            return STRICT[op](self, *vals)
        if op in FOLD:
            # left fold over the argument list; no arguments: 0
            if not a:
                return 0.0
            vals = [self.ev(x) for x in a]
            acc = vals[0]
            for v in vals[1:]:
                acc = FOLD[op](self, acc, v)
            return acc
        raise SpecError("unsupported " + op)

    def access(self, base, form, it):
        p = self.place(form, it)
        if base == "Get":
            b, i = p()
            return self.mget(b, i)
        if base == "Set":
            v = it()
            b, i = p()
            return self.mset(b, i, v)
        if base in RMW:
            v = it()
            b, i = p()
            return self.mset(b, i, FOLD[RMW[base]](self, self.mget(b, i), v))
        b, i = p()
        old = self.mget(b, i)
        new = old + 1 if base.startswith("Inc") else old - 1
        self.mset(b, i, new)
        return new if base.endswith("Post") else old

    # -- control
    def op_Execute(self, a):
        r = 0.0
        for x in a:
            r = self.ev(x)
        return r

    def op_Execute0(self, a):
        for x in a:
            self.ev(x)
        return 0.0

    def op_If(self, a):
        t, x, y = a
        return self.ev(x) if self.ev(t) != 0 else self.ev(y)

    def _switch(self, keys, default):
        t = self.ev(keys[0])
        for k, b in zip(keys[1::2], keys[2::2]):
            if self.ev(k) == t:
                return self.ev(b)
        return default()

    def op_Switch(self, a):
        return self._switch(a, lambda: 0.0)

    def op_SwitchWithDefault(self, a):
        return self._switch(a[:-1], lambda: self.ev(a[-1]))

    def _swint(self, t, bs, default):
        t = self.ev(t)
        for k, b in enumerate(bs):
            if t == k:
                return self.ev(b)
        return default()

    def op_SwitchInteger(self, a):
        return self._swint(a[0], a[1:], lambda: 0.0)

    def op_SwitchIntegerWithDefault(self, a):
        return self._swint(a[0], a[1:-1], lambda: self.ev(a[-1]))

    def op_While(self, a):
        while True:
            if self.ev(a[0]) == 0:
                return 0.0
            self.ev(a[1])

    def op_DoWhile(self, a):
        while True:
            self.ev(a[0])
            if self.ev(a[1]) == 0:
                return 0.0

    def op_And(self, a):
        r = 0.0
        for x in a:
            r = self.ev(x)
            if r == 0:
                return r
        return r

    def op_Or(self, a):
        r = 0.0
        for x in a:
            r = self.ev(x)
            if r != 0:
                return r
        return r

    def op_JumpLoop(self, a):
        n = len(a)
        i = 0
        while True:
            # an index outside the list leaves the loop with 0; the last element's value is the result
            for k in range(n):
                if i == k:
                    break
            else:
                return 0.0
            v = self.ev(a[k])
            if k == n - 1:
                return v
            i = self.trunc(v)

    def trunc(self, v):
        return self.m.trunc(v)

    def op_Block(self, a):
        try:
            return self.ev(a[0])
        except SpecBreak as e:
            if e.n > 1:
                raise SpecBreak(e.n - 1, e.v) from None
            return e.v

    def op_Break(self, a):
        n, v = self.ev(a[0]), self.ev(a[1])
        raise SpecBreak(self.int(n), v)

    def op_Copy(self, a):
        sb, si, db, di, n = [self.int(self.ev(x)) for x in a]
        if n < 0:
            raise SpecError("negative count")
        for k in range(n):          # all reads happen before all writes
            pass
        vals = [self.mget(sb, si + k) for k in range(n)]
        for k, v in enumerate(vals):
            self.mset(db, di + k, v)
        return 0.0

    def op_DebugLog(self, a):
        v = self.ev(a[0])
        self.log.append(v)
        return 0.0

    def op_DebugPause(self, a):
        return 0.0


RMW = {"SetAdd": "Add", "SetSubtract": "Subtract", "SetMultiply": "Multiply", "SetDivide": "Divide", "SetMod": "Mod",
       "SetRem": "Rem", "SetPower": "Power"}


def _b(c):
    return 1.0 if c else 0.0


def _max(a, b):
    return b if b > a else a


def _min(a, b):
    return b if b < a else a


def _unit(x):
    return _max(0, _min(1, x))


class ComplexValue(Exception):
    """no real result (the runtime has no such value)"""


def _real(x):
    if isinstance(x, complex):
        raise ComplexValue
    return x


def _rem(s, a, b):
    """truncated remainder: the dividend's sign"""
    return s.m.copysign(abs(a) % abs(b), a)


FOLD = {"Add": lambda s, a, b: a + b, "Subtract": lambda s, a, b: a - b, "Multiply": lambda s, a, b: a * b,
        "Divide": lambda s, a, b: a / b, "Mod": lambda s, a, b: a % b, "Power": lambda s, a, b: _real(a ** b), "Rem": _rem}


def _judge(s, d, pl, ph, gl, gh, ol, oh):
    if d >= pl and d <= ph:
        return 1.0
    if d >= gl and d <= gh:
        return 2.0
    if d >= ol and d <= oh:
        return 3.0
    return 0.0


def _sign(s, x):
    return 1.0 if x > 0 else -1.0 if x < 0 else x


def _unlerp(a, b, x):
    return (x - a) / (b - a)


STRICT = {
    "Abs": lambda s, x: abs(x), "Negate": lambda s, x: -x, "Not": lambda s, x: _b(x == 0), "Sign": _sign,
    "Ceil": lambda s, x: s.m.ceil(x), "Floor": lambda s, x: s.m.floor(x), "Trunc": lambda s, x: s.m.trunc(x),
    "Round": lambda s, x: round(x), "Frac": lambda s, x: x - s.m.floor(x),
    "Sin": lambda s, x: s.m.sin(x), "Cos": lambda s, x: s.m.cos(x), "Tan": lambda s, x: s.m.tan(x),
    "Sinh": lambda s, x: s.m.sinh(x), "Cosh": lambda s, x: s.m.cosh(x), "Tanh": lambda s, x: s.m.tanh(x),
    "Arcsin": lambda s, x: s.m.asin(x), "Arccos": lambda s, x: s.m.acos(x), "Arctan": lambda s, x: s.m.atan(x),
    "Arctan2": lambda s, y, x: s.m.atan2(y, x), "Log": lambda s, x: s.m.log(x),
    "Degree": lambda s, x: x * (180 / math.pi), "Radian": lambda s, x: x * (math.pi / 180),
    "Equal": lambda s, a, b: _b(a == b), "NotEqual": lambda s, a, b: _b(a != b), "Greater": lambda s, a, b: _b(a > b),
    "GreaterOr": lambda s, a, b: _b(a >= b), "Less": lambda s, a, b: _b(a < b), "LessOr": lambda s, a, b: _b(a <= b),
    "Max": lambda s, a, b: _max(a, b), "Min": lambda s, a, b: _min(a, b),
    "Clamp": lambda s, x, a, b: _max(a, _min(b, x)),
    "Lerp": lambda s, a, b, t: a + (b - a) * t, "LerpClamped": lambda s, a, b, t: a + (b - a) * _unit(t),
    "Unlerp": lambda s, a, b, x: _unlerp(a, b, x), "UnlerpClamped": lambda s, a, b, x: _unit(_unlerp(a, b, x)),
    "Remap": lambda s, a, b, c, d, x: c + (d - c) * (x - a) / (b - a),
    "RemapClamped": lambda s, a, b, c, d, x: c + (d - c) * _unit(_unlerp(a, b, x)),
    "Judge": lambda s, x, y, *w: _judge(s, x - y, *w),
    "JudgeSimple": lambda s, x, y, p, g, o: _judge(s, x - y, -p, p, -g, g, -o, o),
}


# ---------------------------------------------------------------- easings
def _powin(n):
    return lambda s, x: x ** n


def _ein(kind):
    c1 = 1.70158
    return {
        "Quad": lambda s, x: x ** 2, "Cubic": lambda s, x: x ** 3, "Quart": lambda s, x: x ** 4, "Quint": lambda s, x: x ** 5,
        "Back": lambda s, x: (c1 + 1) * x ** 3 - c1 * x ** 2,
        "Circ": lambda s, x: 1 - s.m.sqrt(1 - x ** 2),
        "Sine": lambda s, x: 1 - s.m.cos(x * math.pi / 2),
        "Expo": lambda s, x: 0.0 if x == 0 else 2 ** (10 * x - 10),
        "Elastic": lambda s, x: 0.0 if x == 0 else 1.0 if x == 1 else -(2 ** (10 * x - 10)) * s.m.sin((x * 10 - 10.75) * (2 * math.pi / 3)),
    }[kind]


def ease(name):
    """value in exact arithmetic, from the family definitions; ``name`` like EaseInOutQuad"""
    for mode in ("InOut", "OutIn", "In", "Out"):
        if name.startswith("Ease" + mode):
            kind = name[4 + len(mode):]
            break
    f = _ein(kind)

    def g(s, x):
        x = _unit(x)
        fin = lambda t: f(s, t)
        out = lambda t: 1 - f(s, 1 - t)
        if mode == "In":
            return fin(x)
        if mode == "Out":
            return out(x)
        a, b = (fin, out) if mode == "InOut" else (out, fin)
        return a(2 * x) / 2 if x < 0.5 else b(2 * x - 1) / 2 + 0.5
    return g
