"""Generated programs of the supported language (a function f() over inp/out) and the meaning Python gives them."""
import z3

# ---------------------------------------------------------------- what Python means: plain objects
PRELUDE = """
def tr(st, k, v):
    st.n = (st.n * 5 + k) % 4093
    return v
"""


class PyRecord:
    F = ()

    def __init__(self, *a, **k):
        k = {**dict(zip(self.F, a)), **k}
        if set(k) != set(self.F):
            raise TypeError("fields")
        for n in self.F:
            object.__setattr__(self, n, k[n])

    def __setattr__(self, n, v):
        if n not in self.F:
            raise AttributeError(n)
        old = getattr(self, n)
        if isinstance(old, (PyRecord, PyArray)):
            old.copy_from(v)
        else:
            object.__setattr__(self, n, v)

    def copy_from(self, o):
        vals = [getattr(o, n) for n in self.F]
        for n, v in zip(self.F, vals):
            setattr(self, n, v)

    def __pos__(self):
        return type(self)(*[copied(getattr(self, n)) for n in self.F])

    def __eq__(self, o):
        if not isinstance(o, type(self)):
            return NotImplemented
        return all([getattr(self, n) == getattr(o, n) for n in self.F])

    __hash__ = None

    def flat(self):
        return [x for n in self.F for x in flat(getattr(self, n))]


class PyArray:
    def __init__(self, *v):
        self.v = [copied(x) for x in v]

    def copy_from(self, o):
        for i, x in enumerate(list(o.v)):
            self[i] = x

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        i = 0
        while i < len(self.v):
            yield self.v[i]
            i += 1

    def __getitem__(self, i):
        return self.v[conc(i, -len(self.v), len(self.v))]

    def __setitem__(self, i, x):
        i = conc(i, -len(self.v), len(self.v))
        if isinstance(self.v[i], (PyRecord, PyArray)):
            self.v[i].copy_from(x)
        else:
            self.v[i] = x

    def __pos__(self):
        return PyArray(*self.v)

    def flat(self):
        return [x for y in self.v for x in flat(y)]


def copied(x):
    return +x if isinstance(x, (PyRecord, PyArray)) else x


def flat(x):
    if isinstance(x, (PyRecord, PyArray)):
        return x.flat()
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in flat(y)]
    return [x]


def conc(i, lo, hi):
    """a concrete integer: one path for each value"""
    if not isinstance(i, RV):
        if i != int(i) or not lo <= i < hi:
            raise IndexError(i)
        return int(i)
    if bool(i < lo) or bool(i >= hi):
        raise IndexError("symbolic")
    for k in range(lo, hi - 1):
        if bool(i == k):
            return k
    return hi - 1


class RV:
    """an arbitrary number; every decision on it splits the path"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __add__(self, o): return RV(self.t + raw(o))
    def __radd__(self, o): return RV(raw(o) + self.t)
    def __sub__(self, o): return RV(self.t - raw(o))
    def __rsub__(self, o): return RV(raw(o) - self.t)
    def __mul__(self, o): return RV(self.t * raw(o))
    def __rmul__(self, o): return RV(raw(o) * self.t)
    def __neg__(self): return RV(-self.t)
    def __pos__(self): return self
    def __abs__(self): return self if self >= 0 else -self
    def __lt__(self, o): return bool(self.t < raw(o))
    def __le__(self, o): return bool(self.t <= raw(o))
    def __gt__(self, o): return bool(self.t > raw(o))
    def __ge__(self, o): return bool(self.t >= raw(o))
    def __eq__(self, o): return isinstance(o, (RV, int, float)) and bool(self.t == raw(o))
    def __ne__(self, o): return not self == o
    def __bool__(self): return bool(self.t != 0)
    __hash__ = None


def raw(o):
    if isinstance(o, RV):
        return o.t
    if isinstance(o, bool):
        return int(o)
    if isinstance(o, (int, float)):
        return o
    raise TypeError(type(o))


class NumMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, float, RV))


class Num(metaclass=NumMeta):
    pass


def record(fields):
    return type("R", (PyRecord,), {"F": tuple(fields), "__match_args__": tuple(fields)})


class ArrayMaker:
    """Array(a, b), Array[T, n](a, b), +Array[T, n]"""

    def __call__(self, *v):
        return PyArray(*v)

    def __getitem__(self, tn):
        t, n = tn
        class M:
            def __call__(self, *v):
                assert len(v) == n
                return PyArray(*v)

            def __pos__(self):
                return PyArray(*[zero(t) for _ in range(n)])
        return M()


def zero(t):
    if t in (int, float, Num):
        return 0
    return t.zero()


def py_namespace(cells, out):
    P = record(["x", "y"])
    Q = record(["p", "n"])
    P.zero = classmethod(lambda c: c(0, 0))
    Q.zero = classmethod(lambda c: c(P.zero(), 0))

    def put(i, v):
        for x in flat(v):
            out[i] = x
            i += 1
        return i

    def rng(*a):
        return range(*[conc(x, -6, 7) for x in a])
    return {"inp": lambda i: cells[i], "out": put, "S": record(["n"]), "P": P, "Q": Q, "Array": ArrayMaker(), "Num": Num, "range": rng}


_types = None


def sonolus_namespace():
    global _types
    from vp import front
    A = front.api()
    from sonolus.script.array import Array
    from sonolus.script.num import Num as SNum
    from sonolus.script.record import Record
    if _types is None:
        class P(Record):
            x: int
            y: int

        class Q(Record):
            p: P
            n: int
        class S(Record):
            n: int
        _types = P, Q, S
    return {"inp": A["inp"], "out": A["out"], "S": _types[2], "P": _types[0], "Q": _types[1], "Array": Array, "Num": SNum}


def reference(src, cells):
    """{output cell: number} of running the program as Python"""
    out = {}
    ns = py_namespace(cells, out)
    exec(compile(src, "<program>", "exec"), ns)
    ns["f"]()
    return out


# ---------------------------------------------------------------- programs
NIN = 6        # input cells 0..5 numbers, 6 and 7 indices in 0..2


class Gen:
    def __init__(self, r, size=10, wild=False):
        self.r, self.wild, self.left, self.size = r, wild, size, size
        self.lines, self.ind, self.k = [], 1, 0
        self.nums, self.recs, self.arrs, self.idx, self.fns, self.gens = [], {}, {}, [], {}, {}
        self.loops = []          # kinds of the loops around
        self.fn = 0              # nesting of functions
        self.pure = 0            # no walrus here
        self.flat_ctx = True     # not inside a branch or loop
        self.features = set()

    def fresh(self, p):
        self.k += 1
        return f"{p}{self.k}"

    def emit(self, s):
        self.lines.append("    " * self.ind + s)

    def use(self, f):
        self.features.add(f)

    # ---- expressions
    def const(self):
        return str(self.r.choice([0, 1, 2, 3, -1, -2, 5]))

    def num(self, d=2):
        r = self.r
        z = r.random()
        if d <= 0 or z < 0.22:
            return self.atom()
        if z < 0.42:
            return f"({self.num(d - 1)} {r.choice(['+', '-', '+', '-', '*'])} {r.choice([self.const(), self.num(d - 1)])})"
        if z < 0.47:
            return f"({r.choice(['-', '+', 'not '])}{self.num(d - 1)})"
        if z < 0.54:
            self.use("ifexp")
            return f"({self.num(d - 1)} if {self.cond(d - 1)} else {self.num(d - 1)})"
        if z < 0.60:
            return f"({self.cond(d - 1)})"
        if z < 0.66:
            self.use("boolop value")
            return f"({self.num(d - 1)} {r.choice(['and', 'or'])} {self.num(d - 1)})"
        if z < 0.74:
            self.use("trace")
            return self.traced(self.num(d - 1))
        if z < 0.82 and self.fns or self.fns and r.random() < 0.1:
            return self.call(d - 1)
        if z < 0.85:
            self.use("min max abs")
            return r.choice([f"abs({self.num(d - 1)})", f"min({self.num(d - 1)}, {self.num(d - 1)})", f"max({self.num(d - 1)}, {self.num(d - 1)}, {self.num(d - 1)})"])
        if z < 0.88 and not self.pure and self.walrus_ok():
            self.use("walrus")
            return f"({r.choice(self.walrus_ok())} := {self.num(d - 1)})"
        if z < 0.91:
            self.use("tuple")
            return f"({self.num(d - 1)}, {self.num(d - 1)})[{r.choice([0, 1, -1])}]"
        if z < 0.94:
            return self.genexp(d - 1)
        if z < 0.96:
            self.use("lambda")
            a = self.fresh("a")
            self.pure += 1
            self.nums.append(a)
            body = self.num(d - 1)
            self.nums.remove(a)
            self.pure -= 1
            return f"(lambda {a}: {body})({self.num(d - 1)})"
        if z < 0.98:
            self.use("in")
            return f"({self.num(d - 1)} {r.choice(['in', 'not in'])} ({self.num(d - 1)}, {self.num(d - 1)}))"
        return self.atom()

    def walrus_ok(self):
        return [v for v in self.nums if v[0] == "v"]

    def traced(self, e):
        return f"tr(st, {self.r.randint(1, 9)}, {e})"

    def atom(self):
        r = self.r
        z = r.random()
        if z < 0.35 and self.nums:
            return r.choice(self.nums)
        if z < 0.55 and self.recs:
            n = r.choice(list(self.recs))
            return n + (r.choice([".x", ".y"]) if self.recs[n] == "P" else r.choice([".p.x", ".p.y", ".n"]))
        if z < 0.7 and self.arrs:
            n = r.choice(list(self.arrs))
            return f"{n}[{self.index()}]" + {"n": "", "P": r.choice([".x", ".y"])}[self.arrs[n]]
        if z < 0.9:
            return f"inp({r.randrange(NIN)})"
        return self.const()

    def index(self):
        """0..2 or -3..-1"""
        r = self.r
        if self.idx and r.random() < 0.3:
            return r.choice(self.idx)
        return r.choice(["0", "1", "2", "-1", "-3", "inp(6)", "inp(7)", "2 - inp(6)", "inp(7) - 3"])

    def cond(self, d=2):
        r = self.r
        z = r.random()
        if d <= 0 or z < 0.55:
            ops = ["<", "<=", ">", ">=", "==", "!="]
            n = 2 if r.random() < 0.75 else 3
            if n == 3:
                self.use("chained comparison")
            s = self.num(d - 1)
            for _ in range(n - 1):
                s += f" {r.choice(ops)} {self.num(d - 1)}"
            if r.random() < 0.04:
                self.use("mixed chain")
                s += r.choice([" != None", " == None"])
            return s
        if z < 0.75:
            self.use("boolop")
            return f"({self.cond(d - 1)}) {r.choice(['and', 'or'])} ({self.cond(d - 1)})" + (f" {r.choice(['and', 'or'])} ({self.cond(d - 1)})" if r.random() < 0.2 else "")
        if z < 0.85:
            return f"not ({self.cond(d - 1)})"
        return self.num(d - 1)

    def genexp(self, d):
        r = self.r
        self.use("generator expression")
        self.pure += 1
        fn = r.choice(["sum", "sum", "any", "all", "max"])
        a = self.fresh("a")
        it = self.iterable(d, gen=False)
        self.nums.append(a)
        s = f"for {a} in {it}"
        if r.random() < 0.4:
            s += f" if {self.cond(0)}"
        b = None
        if r.random() < 0.25:
            b = self.fresh("a")
            s += f" for {b} in {self.iterable(0, gen=False)}"
            self.nums.append(b)
            if r.random() < 0.4:
                s += f" if {self.cond(0)}"
        e = self.num(min(d, 1))
        self.nums.remove(a)
        if b:
            self.nums.remove(b)
        self.pure -= 1
        if fn == "max":
            return f"max(({e} {s}), default={self.const()})"
        return f"{fn}({e} {s})"

    def iterable(self, d, gen=True):
        r = self.r
        z = r.random()
        if z < 0.3:
            return r.choice(["range(3)", "range(2)", "range(1, 4)", "range(3, 0, -1)", "range(inp(6))", "range(inp(6), inp(7))", "range(0, 5, 2)", "range(inp(7), -1, -1)"])
        if z < 0.65:
            return "(" + ", ".join(self.num(min(d, 1)) for _ in range(r.randint(1, 3))) + ",)"
        arrs = [n for n, t in self.arrs.items() if t == "n"]
        if z < 0.8 and arrs:
            return r.choice(arrs)
        if gen and self.gens:
            n = r.choice(list(self.gens))
            return f"{n}({self.num(min(d, 1))})"
        return "range(2)"

    def call(self, d):
        r = self.r
        n = r.choice(list(self.fns))
        params, ndef, star = self.fns[n]
        self.use("call")
        kinds = []
        args, kws = [], []
        npos = r.randint(0, len(params))
        for i, (p, t) in enumerate(params):
            if i >= len(params) - ndef and r.random() < 0.5:
                # every later argument by keyword
                npos = min(npos, i)
                continue
            e = self.num(d) if t == "n" else self.rec_expr(t)
            if i < npos:
                args.append(e)
            else:
                kws.append(f"{p}={e}")
        if star and len(args) == len(params):
            args += [self.num(0) for _ in range(r.randint(0, 2))]
        if len(args) >= 2 and all(t == "n" for _, t in params) and r.random() < 0.2:
            self.use("starred call")
            args = [f"*({', '.join(args)},)"]
        r.shuffle(kws)
        return f"{n}({', '.join(args + kws)})"

    def rec_expr(self, t):
        r = self.r
        have = [n for n, k in self.recs.items() if k == t]
        z = r.random()
        if have and z < 0.5:
            return r.choice(have)
        if have and z < 0.65:
            return f"+{r.choice(have)}"
        if t == "P":
            arrs = [n for n, k in self.arrs.items() if k == "P"]
            qs = [n for n, k in self.recs.items() if k == "Q"]
            if arrs and z < 0.8:
                return f"{r.choice(arrs)}[{self.index()}]"
            if qs and z < 0.9:
                return f"{r.choice(qs)}.p"
            return r.choice(["P({}, {})", "P(y={}, x={})", "P({}, y={})"]).format(self.num(1), self.num(1))
        return r.choice(["Q({p}, {n})", "Q(n={n}, p={p})"]).format(p=self.rec_expr("P"), n=self.num(1))

    # ---- statements
    def block(self, n, **kw):
        self.ind += 1
        k = len(self.lines)
        for _ in range(n):
            self.stmt()
        if len(self.lines) == k:
            self.emit("pass")
        self.ind -= 1

    def scoped(self, n, loop=False, nums=(), idx=(), recs=None, arm=None):
        """a block whose new variables are not available afterwards"""
        s = (list(self.nums), dict(self.recs), dict(self.arrs), list(self.idx), dict(self.fns), dict(self.gens), self.flat_ctx)
        self.nums += [x for x in nums if x not in self.nums]
        self.idx += idx
        self.recs.update(recs or {})
        self.flat_ctx = False
        self.block(n)
        self.nums, self.recs, self.arrs, self.idx, self.fns, self.gens, self.flat_ctx = s

    def stmt(self):
        r = self.r
        self.left -= 1
        if self.left <= 0:
            return self.assign()
        z = r.random()
        deep = self.ind > 4
        if self.loops and not self.fn_boundary() and r.random() < 0.12:
            self.use("jump")
            self.emit(f"if {self.cond(1)}:")
            return self.emit("    " + r.choice(["break", "continue"]))
        if self.fn and r.random() < 0.1:
            self.use("early return")
            self.emit(f"if {self.cond(1)}:")
            return self.emit(f"    return {self.num(1)}" if not self.in_gen else "    return")
        if z < 0.16:
            self.assign()
        elif z < 0.25:
            self.augassign()
        elif z < 0.31:
            self.tuple_assign()
        elif z < 0.40:
            self.store()
        elif z < 0.46:
            self.new_object()
        elif z < 0.49:
            self.use("expression statement")
            self.emit(self.num(2))
        elif z < 0.52 and self.loops and not self.fn_boundary():
            self.use("jump")
            self.emit(f"if {self.cond(1)}:")
            self.emit("    " + r.choice(["break", "continue"]))
        elif z < 0.53 and self.loops and not self.fn_boundary():
            self.use("dead code")
            self.emit(r.choice(["break", "continue"]))
        elif z < 0.56 and self.fn:
            self.use("early return")
            self.emit(f"if {self.cond(1)}:")
            self.emit(f"    return {self.num(1)}" if not self.in_gen else "    return")
        elif deep:
            self.assign()
        elif z < 0.68:
            self.if_()
        elif z < 0.76:
            self.for_()
        elif z < 0.82:
            self.while_()
        elif z < 0.90:
            self.match_()
        elif not self.fn and z < 0.97:
            self.def_()
        elif not self.fn:
            self.gendef()
        else:
            self.assign()

    in_gen = False

    def fn_boundary(self):
        return bool(self.loops) and self.loops[-1] is None

    def target(self):
        r = self.r
        own = self.walrus_ok() if not self.fn else [v for v in self.nums if v.startswith(f"l{self.fn}_")]
        if own and r.random() < 0.7:
            return r.choice(own)
        v = self.fresh("v") if not self.fn else self.fresh(f"l{self.fn}_")
        return v

    def assigned(self, v):
        if v not in self.nums:
            self.nums.append(v)

    def assign(self):
        e = self.num(2)
        v = self.target()
        if self.r.random() < 0.1:
            w = self.target()
            self.use("multiple targets")
            self.emit(f"{v} = {w} = {e}")
            self.assigned(w)
        else:
            self.emit(f"{v} = {e}")
        self.assigned(v)

    def place(self):
        """an assignable numeric place other than a name"""
        r = self.r
        c = []
        for n, t in self.recs.items():
            c += [f"{n}.x", f"{n}.y"] if t == "P" else [f"{n}.p.x", f"{n}.p.y", f"{n}.n"]
        for n, t in self.arrs.items():
            c += [f"{n}[{self.index()}]"] if t == "n" else [f"{n}[{self.index()}].x", f"{n}[{self.index()}].y"]
        return r.choice(c) if c else None

    def augassign(self):
        r = self.r
        own = self.walrus_ok() if not self.fn else [v for v in self.nums if v.startswith(f"l{self.fn}_")]
        t = self.place() if r.random() < 0.5 or not own else r.choice(own)
        if t is None:
            return self.assign()
        self.use("augmented assignment")
        e = self.num(1)
        if "[" in t and r.random() < 0.3:
            self.use("side effect in index")
            t = t.replace("[", "[tr(st, 7, ").replace("]", ")]")
        self.emit(f"{t} {r.choice(['+=', '-=', '*='])} {e}")

    def tuple_assign(self):
        r = self.r
        self.use("tuple assignment")
        n = r.randint(2, 3)
        ts = []
        for _ in range(n):
            p = self.place()
            ts.append(p if p and r.random() < 0.4 else self.target())
        es = [r.choice(self.nums) if self.nums and r.random() < 0.5 else self.num(1) for _ in range(n)]
        if r.random() < 0.3:
            es = [t if t in self.nums or "." in t or "[" in t else e for t, e in zip(ts[1:] + ts[:1], es)]
        if n == 3 and r.random() < 0.3:
            self.emit(f"{ts[0]}, ({ts[1]}, {ts[2]}) = {es[0]}, ({es[1]}, {es[2]})")
        else:
            self.emit(f"{', '.join(ts)} = {', '.join(es)}")
        for t in ts:
            if "." not in t and "[" not in t:
                self.assigned(t)

    def store(self):
        r = self.r
        z = r.random()
        qs = [n for n, t in self.recs.items() if t == "Q"]
        ap = [n for n, t in self.arrs.items() if t == "P"]
        if z < 0.25 and qs:
            self.use("record into record")
            return self.emit(f"{r.choice(qs)}.p = {self.rec_expr('P')}")
        if z < 0.5 and ap:
            self.use("record into array")
            return self.emit(f"{r.choice(ap)}[{self.index()}] = {self.rec_expr('P')}")
        t = self.place()
        if t is None:
            return self.assign()
        e = self.num(2)
        if "[" in t and r.random() < 0.2:
            self.use("side effect in index")
            t = t.replace("[", "[tr(st, 8, ").replace("]", ")]")
        self.emit(f"{t} = {e}")

    def new_object(self):
        r = self.r
        if (not self.flat_ctx or self.fn) and not self.wild:
            # a new name is fine anywhere; rebinding is not
            pass
        if r.random() < 0.6:
            t = r.choice(["P", "P", "Q"])
            e = self.rec_expr(t)
            if self.wild and r.random() < 0.5 and [n for n, k in self.recs.items() if k == t]:
                n = r.choice([n for n, k in self.recs.items() if k == t])
                if self.fn and not n.startswith(f"r{self.fn}_"):
                    n = self.fresh(f"r{self.fn}_")
            elif self.flat_ctx and not self.fn and r.random() < 0.3 and [n for n, k in self.recs.items() if k == t]:
                self.use("rebinding a reference")
                n = r.choice([n for n, k in self.recs.items() if k == t])
            else:
                n = self.fresh(f"r{self.fn}_")
            self.use("record")
            self.emit(f"{n} = {e}")
            self.recs[n] = t
        else:
            self.use("array")
            n = self.fresh(f"b{self.fn}_")
            if r.random() < 0.6:
                z = r.random()
                have = [m for m, k in self.arrs.items() if k == "n"]
                if have and z < 0.3:
                    e = r.choice(["+", ""]) + r.choice(have)
                elif z < 0.45:
                    e = "+Array[int, 3]"
                else:
                    e = r.choice(["Array", "Array[int, 3]"]) + f"({self.num(1)}, {self.num(1)}, {self.num(1)})"
                self.arrs[n] = "n"
                self.emit(f"{n} = {e}")
            else:
                have = [m for m, k in self.arrs.items() if k == "P"]
                if have and r.random() < 0.3:
                    e = r.choice(["+", ""]) + r.choice(have)
                else:
                    e = f"Array({self.rec_expr('P')}, {self.rec_expr('P')}, {self.rec_expr('P')})"
                self.arrs[n] = "P"
                self.emit(f"{n} = {e}")

    def if_(self):
        r = self.r
        self.use("if")
        self.emit(f"if {self.cond(2)}:")
        self.scoped(r.randint(1, 3))
        while r.random() < 0.25:
            self.emit(f"elif {self.cond(1)}:")
            self.scoped(r.randint(1, 2))
        if r.random() < 0.55:
            self.emit("else:")
            self.scoped(r.randint(1, 2))

    def for_(self):
        r = self.r
        v = self.target() if r.random() < 0.5 else self.fresh(f"l{self.fn}_" if self.fn else "v")
        z = r.random()
        nums, idx, recs = [v], [], {}
        arrP = [n for n, t in self.arrs.items() if t == "P"]
        arrN = [n for n, t in self.arrs.items() if t == "n"]
        if z < 0.12:
            self.use("for enumerate")
            i = self.fresh("i")
            src = r.choice(arrN) if arrN and r.random() < 0.5 else "(" + ", ".join(self.num(1) for _ in range(2)) + ")"
            self.emit(f"for {i}, {v} in enumerate({src}):")
            idx = [i]
            nums = [v, i]
        elif z < 0.24 and arrP:
            self.use("for over records")
            q = self.fresh(f"r{self.fn}_")
            self.emit(f"for {q} in {r.choice(arrP)}:")
            nums, recs = [], {q: "P"}
        elif z < 0.32:
            self.use("for zip")
            w = self.fresh(f"l{self.fn}_" if self.fn else "v")
            a = "(" + ", ".join(self.num(1) for _ in range(3)) + ")"
            b = r.choice(arrN) if arrN and r.random() < 0.4 else "(" + ", ".join(self.num(1) for _ in range(2)) + ")"
            if b[0] != "(":
                a = r.choice(arrN)
            self.emit(f"for {v}, {w} in zip({a}, {b}):")
            nums = [v, w]
        elif z < 0.4:
            self.use("for index")
            i = self.fresh("i")
            self.emit(f"for {i} in range({r.choice(['3', '2', 'inp(6)'])}):")
            nums, idx = [i], [i]
        else:
            it = self.iterable(1)
            if self.gens and r.random() < 0.3:
                it = f"{r.choice(list(self.gens))}({self.num(1)})"
            self.use("for tuple" if it[0] == "(" else "for range" if it.startswith("range") else "for generator" if "(" in it else "for array")
            self.emit(f"for {v} in {it}:")
        self.loops.append("for")
        self.scoped(r.randint(1, 3), nums=nums, idx=idx, recs=recs)
        self.loops.pop()
        if r.random() < 0.3:
            self.use("for else")
            self.emit("else:")
            self.scoped(r.randint(1, 2))

    def while_(self):
        r = self.r
        w = self.fresh("w")
        self.emit(f"{w} = 0")
        c = "" if r.random() < 0.4 else r.choice([" and ", " and "]) + f"({self.cond(1)})"
        form = r.random()
        self.use("while")
        if form < 0.15:
            self.emit("while True:")
            self.emit(f"    if {w} >= {r.randint(1, 3)}{'' if not c else ' or not (' + c[5:] + ')'}:")
            self.emit("        break")
        elif form < 0.25 and not self.fn:
            self.emit(f"while ({w} := {w} + 1) < {r.randint(2, 4)}{c}:")
        else:
            self.emit(f"while {w} < {r.randint(1, 3)}{c}:")
        self.emit(f"    {w} += 1")
        self.nums.append(w)
        self.loops.append("while")
        self.scoped(r.randint(1, 3))
        self.loops.pop()
        self.nums.remove(w)
        if form >= 0.25 and r.random() < 0.3:
            self.use("while else")
            self.emit("else:")
            self.scoped(r.randint(1, 2))

    def match_(self):
        r = self.r
        z = r.random()
        cap = lambda: self.fresh(f"l{self.fn}_" if self.fn else "m")
        lit = lambda: r.choice(["0", "1", "2", "-1", "3"])
        own = self.walrus_ok() if not self.fn else []
        ps = [n for n, t in self.recs.items() if t == "P"]
        qs = [n for n, t in self.recs.items() if t == "Q"]

        def pat():
            """(pattern, captures) of a number inside another pattern"""
            y = r.random()
            if y < 0.4:
                return lit(), []
            if y < 0.55:
                return f"{lit()} | {lit()}", []
            if y < 0.85:
                c = cap()
                return c, [c]
            return "_", []

        def sub(*pp):
            return [p for p, _ in pp], [c for _, cs in pp for c in cs]
        if z < 0.4:
            self.use("match number")
            self.emit(f"match {self.num(2)}:")
            kind = "n"
        elif z < 0.7 or not (ps or qs):
            self.use("match tuple")
            self.emit(f"match ({self.num(1)}, {self.num(1)}):")
            kind = "t"
        elif ps and (z < 0.9 or not qs):
            self.use("match record")
            self.emit(f"match {r.choice(ps)}:")
            kind = "P"
        else:
            self.use("match nested record")
            self.emit(f"match {r.choice(qs)}:")
            kind = "Q"
        self.ind += 1
        for _ in range(r.randint(1, 3)):
            caps = []
            if kind == "n":
                y = r.random()
                if y < 0.4:
                    p = lit()
                elif y < 0.6:
                    p = f"{lit()} | {lit()}"
                elif y < 0.75:
                    c = r.choice(own) if own and r.random() < 0.5 else cap()
                    p, caps = f"({lit()} | {lit()}) as {c}", [c]
                elif y < 0.9:
                    c = r.choice(own) if own and r.random() < 0.5 else cap()
                    p, caps = c, [c]
                else:
                    c = cap()
                    p, caps = f"Num() as {c}", [c]
            elif kind == "t":
                (a, b), caps = sub(pat(), pat())
                p = r.choice(["({}, {})", "[{}, {}]"]).format(a, b)
                if r.random() < 0.1:
                    p, caps = "(0, 1, 2)", []
            elif kind == "P":
                (a, b), caps = sub(pat(), pat())
                p = r.choice(["P({}, {})", "P(x={}, y={})", "P({}, y={})"]).format(a, b)
                if r.random() < 0.2:
                    (a,), caps = sub(pat())
                    p = f"P(y={a})"
            else:
                (a, b), caps = sub(pat(), pat())
                p = r.choice(["Q(P({}), {})", "Q(n={1}, p=P(y={0}))", "Q(P(x={}), n={})"]).format(a, b)
            guard = ""
            irref = kind == "n" and (p in caps or p.startswith("Num() as"))
            if r.random() < 0.3 or irref:
                self.use("guard")
                keep = list(self.nums)
                self.nums += [c for c in caps if c not in self.nums]
                guard = f" if {self.cond(1)}"
                self.nums = keep
            self.emit(f"case {p}{guard}:")
            self.scoped(r.randint(1, 2), nums=caps)
        if r.random() < 0.5:
            self.emit("case _:")
            self.scoped(r.randint(1, 2))
        self.ind -= 1

    def def_(self):
        r = self.r
        self.use("nested function")
        n = self.fresh("g")
        params = [(self.fresh("q"), r.choice(["n", "n", "n", "P"])) for _ in range(r.randint(0, 3))]
        ndef = 0
        while ndef < len(params) and params[len(params) - 1 - ndef][1] == "n" and r.random() < 0.4:
            ndef += 1
        star = not ndef and r.random() < 0.15
        kwonly = self.fresh("q") if r.random() < 0.15 else None
        ps = []
        for i, (p, t) in enumerate(params):
            if i >= len(params) - ndef:
                ps.append(f"{p}={self.num(1)}")
            else:
                ps.append(p)
        rest = self.fresh("z")
        if star:
            ps.append("*" + rest)
        if kwonly:
            if not star:
                ps.append("*")
            ps.append(f"{kwonly}={self.num(0)}")
        s = (list(self.nums), dict(self.recs), dict(self.arrs), list(self.idx), dict(self.fns), dict(self.gens), self.flat_ctx)
        self.emit(f"def {n}({', '.join(ps)}):")
        if not self.flat_ctx and not self.wild:
            pass
        self.fn += 1
        self.loops.append(None)
        self.nums = self.nums + [p for p, t in params if t == "n"] + ([kwonly] if kwonly else [])
        self.recs = {**self.recs, **{p: t for p, t in params if t != "n"}}
        self.flat_ctx = True
        self.pure += 1
        self.block(r.randint(1, 3))
        self.ind += 1
        tail = f" + len({rest})" if star and r.random() < 0.5 else f" + sum({rest})" if star else ""
        self.emit(f"return {self.num(2)}{tail}")
        self.ind -= 1
        self.pure -= 1
        self.loops.pop()
        self.fn -= 1
        self.nums, self.recs, self.arrs, self.idx, self.fns, self.gens, self.flat_ctx = s
        self.fns = {**self.fns, n: (params, ndef, star)}

    def gendef(self):
        r = self.r
        self.use("generator function")
        n, p = self.fresh("y"), self.fresh("q")
        s = (list(self.nums), dict(self.recs), dict(self.arrs), list(self.idx), dict(self.fns), dict(self.gens), self.flat_ctx)
        self.emit(f"def {n}({p}):")
        self.fn += 1
        self.in_gen = True
        self.loops.append(None)
        self.nums, self.recs, self.arrs, self.idx, self.fns, self.gens = [p], {}, {}, [], {}, {}
        self.pure += 1
        self.ind += 1
        for _ in range(r.randint(1, 3)):
            z = r.random()
            if z < 0.35:
                self.emit(f"yield {self.num(1)}")
            elif z < 0.5:
                self.emit(f"yield from {self.iterable(1, gen=False)}")
            elif z < 0.75:
                w = self.fresh(f"l{self.fn}_")
                self.emit(f"for {w} in {self.iterable(1, gen=False)}:")
                self.nums.append(w)
                if r.random() < 0.5:
                    self.emit(f"    if {self.cond(0)}:")
                    self.emit(f"        {r.choice(['continue', 'break', 'return'])}")
                self.emit(f"    yield {self.num(1)}")
                self.nums.remove(w)
            else:
                self.emit(f"if {self.cond(1)}:")
                self.emit(f"    yield {self.num(1)}")
        self.emit(f"yield {self.num(1)}")
        self.ind -= 1
        self.pure -= 1
        self.loops.pop()
        self.in_gen = False
        self.fn -= 1
        self.nums, self.recs, self.arrs, self.idx, self.fns, self.gens, self.flat_ctx = s
        self.gens = {**self.gens, n: 1}

    def program(self):
        self.lines = []
        self.emit("st = S(1)")
        self.emit("v1 = inp(0)")
        self.emit("v2 = inp(1)")
        self.nums, self.k = ["v1", "v2"], 2
        for _ in range(self.r.randint(0, 4)):
            self.r.choice([self.new_object, self.new_object, self.def_, self.gendef])()
        while self.left > 0:
            self.stmt()
        self.emit("k = out(0, st.n)")
        for v in self.nums:
            self.emit(f"k = out(k, {v})")
        for v in list(self.recs) + list(self.arrs):
            self.emit(f"k = out(k, {v})")
        return PRELUDE + "\n\ndef f():\n" + "\n".join(self.lines) + "\n"
