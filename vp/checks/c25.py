"""C25 Random helpers stay in range and permute."""
import os

import z3

from vp import front, sx, sym
from vp.check import Task
from vp.checks.common import merge, pack
from vp.checks.c17 import TYPES, Real, fn, injective, inside, namespace, size
from vp.contract import Contract, Item, conj
from vp.hoare import A0, HoareContract, it
from vp.sym import SInt

META = {
    "level": "proof",
    "functions": ["_randrange", "_randint", "_choice", "_shuffle", "_swap", "_random", "_uniform", "_random_float", "_random_integer"],
    "trusted": ["z3", "the front end's translation (C22) and the optimizer (C01)", "an injective map of a finite set into itself is onto"],
    "assumptions": ["the source: RandomInteger(a, b) is any integer in [a, b), Random(a, b) any number in [a, b] (the runtime's definition)", "numbers as reals; ranges that are not empty"],
    "rule": "for every draw the result is in range (demonic draws); for every value of the range / every arrangement there are draws that give it (angelic draws); bounded part: every outcome of small cases with a scripted source, at every level",
    "technique": "contracts on the compiled real functions with demonic and angelic draws, shuffle by loop invariants for every length; z3",
    "deadline": {"quick": 300, "thorough": 600},
}
TARGET = "sonolus.script.internal.random"
And, Or, Not, Imp, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
_items = None


def draws(o):
    return [(op, a) for op, a in o.run.log if op in ("Random", "RandomInteger")]


class Pick(Contract):
    """result = a function of one draw: inside(r, v) for every draw; every m with inside(m, v) is the result of some draw"""
    abstract = True

    def __init__(self, name, f, types, pre, member, witness, **kw):
        self.member, self.witness = member, witness
        super().__init__(name, f, types, self.post, pre=pre, **kw)

    def post(self, v, o):
        d = draws(o)
        if len(d) != 1 or d[0][0] != "RandomInteger":
            return {"one integer draw": False}
        a, b, r = d[0][1]
        y = it(o[0])
        m = sym.fresh("m", z3.IntSort())
        c = sym.Ctx.cur
        g = {"in range": self.member(y, v)}
        # the draw was assumed in [a, b): a draw w gives y[w / draw]; both must be implied by m being a member
        w = self.witness(m, v, it(a), it(b))
        at_w = z3.substitute(y, (r.t, w))
        bound = And(it(a) <= w, w < it(b))
        s = z3.Solver()
        g["source range is not empty"] = it(a) < it(b)
        g["every member is reached"] = Imp(self.member(m, v), And(bound, at_w == m))
        return g


def k(v, i):
    return it(v[i])


def member_range(lo, hi, st):
    """m in range(lo, hi, st), st a number other than 0"""
    def f(m, v):
        a, b = lo(v), hi(v)
        if st > 0:
            return And(m >= a, m < b, (m - a) % st == 0)
        return And(m <= a, m > b, (a - m) % -st == 0)
    return f


def api():
    import random
    return dict(front.api(), random=random)


def f_of(code):
    return front.src_fn("def f():\n" + "\n".join("    " + l for l in code.split("\n")) + "\n    done(1)\n", api())


class Scripted(Item):
    """compiled code on the reference interpreter with a scripted source: every outcome is visited.
    members(x) -> list of all results, each must be reached and nothing else"""

    def __init__(self, name, f, sample, members, contract=None, draws=1):
        self.members, self.ndraws = members, draws
        super().__init__(name, f, sample, None, contract)

    def one(self, x):
        import random
        want = self.members(x)
        seen = {lev: set() for lev in ("minimal", "fast", "standard")}
        script, todo, runs = [], [[]], 0
        orig = random.randrange
        why = []
        while todo and runs < 800:
            script = todo.pop()
            runs += 1
            pos = [0]
            sizes = []

            def randrange(a, b=None, script=script, pos=pos, sizes=sizes):
                a, b = (0, a) if b is None else (a, b)
                if not a < b:
                    raise ValueError(f"empty range {a} {b}")
                i = pos[0]
                pos[0] += 1
                n = int(b - a)
                sizes.append(n)
                return int(a) + (script[i] if i < len(script) else 0) % n
            first = None
            for lev in seen:
                pos[0] = 0
                sizes.clear()
                random.randrange = randrange
                try:
                    r = self.run_level(lev, x)
                finally:
                    random.randrange = orig
                if r[0] != "ok":
                    return f"{lev}: {r[0]}: {r[1]} (draws {script})"
                seen[lev].add(tuple(r[1]))
                if first is None:
                    first = list(sizes)
                    # the other outcomes of the draws after the scripted ones
                    for i in range(len(script), len(first)):
                        for q in range(1, min(first[i], 40)):
                            todo.append(script + [0] * (i - len(script)) + [q])
                elif sizes != first:
                    why.append(f"{lev} draws {sizes}, minimal {first}")
        if why:
            return why[0]
        for lev, s in seen.items():
            if s != set(want):
                return f"{lev}: outcomes {sorted(s)[:8]}, expected {sorted(want)[:8]}"
        return None

    def run_level(self, lev, x):
        c = self.compiled()
        old = c.nodes
        c.nodes = {lev: old[lev]}
        try:
            r = c.run(x)[lev]
        finally:
            c.nodes = old
        if r[0] != "ok":
            return r
        return ("ok", [float(q) for q in r[2]])


# ---------------------------------------------------------------- integers
def int_items():
    L = []

    def add(name, code, types, pre, mem, wit, sample, members):
        f = f_of(code)
        L.append(Scripted(name, f, sample, members, Pick(name, f, types, pre, mem, wit, budget=100)))
    zero = lambda v: z3.IntVal(0)  # noqa: E731
    add("randrange(n)", "out(0, random.randrange(inp(0)))", "int", lambda v: v[0] >= 1, member_range(zero, lambda v: k(v, 0), 1), lambda m, v, a, b: m - 0 + a, lambda r: {0: r.randint(1, 6)}, lambda x: [(i,) for i in range(x[0])])
    add("randrange(a, b)", "out(0, random.randrange(inp(0), inp(1)))", "int", lambda v: v[0] < v[1], member_range(lambda v: k(v, 0), lambda v: k(v, 1), 1), lambda m, v, a, b: m - k(v, 0) + a,
        lambda r: (lambda a: {0: a, 1: a + r.randint(1, 6)})(r.randint(-9, 9)), lambda x: [(i,) for i in range(x[0], x[1])])
    for st in (1, 2, 3, 7, 10, -1, -2, -3, -8):
        def pre(v, st=st):
            return v[0] < v[1] if st > 0 else v[0] > v[1]

        def sample(r, st=st):
            a = r.randint(-9, 9)
            return {0: a, 1: a + (1 if st > 0 else -1) * r.randint(1, 22)}
        add(f"randrange(a, b, {st})", f"out(0, random.randrange(inp(0), inp(1), {st}))", "int", pre, member_range(lambda v: k(v, 0), lambda v: k(v, 1), st), lambda m, v, a, b, st=st: a + ((m - k(v, 0)) / st if st > 0 else (k(v, 0) - m) / -st), sample,
            lambda x, st=st: [(i,) for i in range(x[0], x[1], st)])
    # step known at run time only
    f = f_of("out(0, random.randrange(inp(0), inp(1), inp(2)))")

    def sample3(r):
        a, st = r.randint(-9, 9), r.choice([-4, -3, -2, -1, 1, 2, 3, 5])
        return {0: a, 1: a + (1 if st > 0 else -1) * r.randint(1, 18), 2: st}

    class Step(Contract):
        """the draw is over [0, len) and the result is start + step * draw, with len the length of the range"""
        abstract = True
    def post(v, o):
        d = draws(o)
        if len(d) != 1 or d[0][0] != "RandomInteger":
            return {"one integer draw": False}
        a, b, r = d[0][1]
        s, e, st, n = k(v, 0), k(v, 1), k(v, 2), it(b)
        return {"from zero": it(a) == 0, "result": it(o[0]) == s + st * r.t, "last in": If(st > 0, s + st * (n - 1) < e, s + st * (n - 1) > e), "next out": If(st > 0, s + st * n >= e, s + st * n <= e)}
    L.append(Scripted("randrange(a, b, c)", f, sample3, lambda x: [(i,) for i in range(x[0], x[1], x[2])], Step("randrange(a, b, c)", f, "int", post, pre=lambda v: SOr(conj(v[2] > 0, v[0] < v[1]), conj(v[2] < 0, v[0] > v[1])), budget=100)))
    add("randint", "out(0, random.randint(inp(0), inp(1)))", "int", lambda v: v[0] <= v[1], member_range(lambda v: k(v, 0), lambda v: k(v, 1) + 1, 1), lambda m, v, a, b: m, lambda r: (lambda a: {0: a, 1: a + r.randint(0, 5)})(r.randint(-9, 9)),
        lambda x: [(i,) for i in range(x[0], x[1] + 1)])
    add("randint negative constant", "out(0, random.randint(-3, inp(1)))", "int", lambda v: v[1] >= -3, member_range(lambda v: z3.IntVal(-3), lambda v: k(v, 1) + 1, 1), lambda m, v, a, b: m, lambda r: {1: r.randint(-3, 4)}, lambda x: [(i,) for i in range(-3, x[1] + 1)])
    return L


def SOr(a, b):
    from vp.contract import disj
    return disj(a, b)


# ---------------------------------------------------------------- floats
def float_items():
    L = []

    def one(o):
        d = draws(o)
        return d[0][1] if len(d) == 1 and d[0][0] == "Random" else None

    def rnd(v, o):
        d = one(o)
        if d is None:
            return {"one draw": False}
        from vp.sym import lift_real
        import struct
        hi = d[1]
        y = lift_real(o[0]).t
        top = struct.unpack("<f", struct.pack("<I", 0x3F7FFFFF))[0]
        return {"not negative": y >= 0, "below one": y < 1, "below one as a 32-bit number": y <= sym.realv(top), "down to zero": z3.substitute(y, (d[2].t, z3.RealVal(0))) == 0 if not isinstance(d[0], sym.Sym) and d[0] == 0 else z3.BoolVal(False),
                "up to the last below one": z3.substitute(y, (d[2].t, sym.realv(float(hi)))) > sym.realv(0.9999999)}

    def uni(v, o):
        d = one(o)
        if d is None:
            return {"one draw": False}
        y = o[0].t
        a, b = v[0].t, v[1].t
        return {"at least a": y >= a, "at most b": y <= b, "a is reached": Imp(a < b, And(sym.lift_real(d[0]).t == a, z3.substitute(y, (d[2].t, a)) == a)), "up to b": sym.lift_real(d[1]).t == b}

    class FloatItem(Item):
        def one(self, x):
            import random
            orig = random.uniform
            for t in (0.0, 1.0, 0.5, 0.999):
                for lev in ("minimal", "fast", "standard"):
                    random.uniform = lambda a, b, t=t: a + (b - a) * t if t < 1 else b
                    try:
                        r = Scripted.run_level(self, lev, x)
                    finally:
                        random.uniform = orig
                    if r[0] != "ok":
                        return f"{lev}: {r[0]}: {r[1]}"
                    y = r[1][0]
                    lo, hi = (x[0], x[1]) if x else (0, 1)
                    import struct
                    if not lo <= y <= hi or not x and not struct.unpack("<f", struct.pack("<f", y))[0] < 1:
                        return f"{lev}: {y} outside [{lo}, {hi}{']' if x else ')'}"
                    if x and abs(y - (lo + (hi - lo) * t)) > 1e-9 * (abs(lo) + abs(hi) + 1):
                        return f"{lev}: {y} for the fraction {t} of [{lo}, {hi}]"
            return None
    f = f_of("out(0, random.random())")
    L.append(FloatItem("random", f, lambda r: {}, None, Contract("random", f, {None: "real"}, rnd)))
    f = f_of("out(0, random.uniform(inp(0), inp(1)))")
    L.append(FloatItem("uniform", f, lambda r: (lambda a: {0: a, 1: a + r.choice([0.25, 3, 100])})(r.uniform(-9, 9)), None, Contract("uniform", f, {None: "real"}, uni, pre=lambda v: v[0] < v[1])))
    return L


# ---------------------------------------------------------------- sequences
def choice_contract():
    def post(v, o, s):
        n = v.t(0)
        d = draws(o)
        if len(d) != 1 or d[0][0] != "RandomInteger":
            return {"one integer draw": z3.BoolVal(False)}
        a, b, r = d[0][1]
        y = o[0].t
        return {"an element": And(it(a) >= 0, it(b) <= n, y == A0(r.t)), "all positions": And(it(a) == 0, it(b) == n), "unchanged": lambda q: s.G(q) == q}
    import random
    return HoareContract("choice", fn("out(0, random.choice(a))", dict(namespace(), random=random)), TYPES, post, pre=lambda v: v[0] >= 1)


def shuffle_contract():
    import random

    def inv(v, s):
        n, i = v.t(0), s["i"]
        return {**injective(s, n), "i": And(i < n, Or(i >= 0, n == 0))}

    def post(v, o, s):
        return injective(s, v.t(0))
    return HoareContract("shuffle permutes", fn("random.shuffle(a)", dict(namespace(), random=random)), TYPES, post, invs=[inv], pre=size)


T = z3.Function("target", z3.IntSort(), z3.IntSort())


def reach_contract():
    """for an arbitrary arrangement T there are draws after which the array is T"""
    import random

    def target(v, s):
        n = v.t(0)
        return {"target": lambda a, b: Imp(And(inside(a, n), inside(b, n), T(a) == T(b)), a == b), "target range": lambda a: Imp(inside(a, n), inside(T(a), n))}

    def inv(v, s):
        n, i = v.t(0), s["i"]
        return {**injective(s, n), "i": And(i < n, Or(i >= 0, n == 0)), "done above i": lambda q: Imp(And(q > i, q < n), s.G(q) == T(q))}

    def draw(run, op, a, b):
        if op != "RandomInteger":
            return None
        from vp.hoare import St
        s = St(run, run.scope)
        i, n = s["i"], run.v.t(0)
        w = sym.fresh("w", z3.IntSort())
        run.term(w)
        run.term(i)
        # an injective map of a finite set into itself is onto: the element T(i) is somewhere
        sym.Ctx.cur.axiom(z3.Implies(inside(i, n), And(inside(w, n), s.G(w) == T(i))))
        run.check("the wanted position can be drawn", And(it(a) <= w, w < it(b)), [w, i])
        return SInt(w)

    def post(v, o, s):
        n = v.t(0)
        # what is left is position 0: all others hold their target, so the remaining element does too (onto)
        p0 = sym.fresh("p", z3.IntSort())
        s.run.term(p0)
        s.run.term(z3.IntVal(0))
        sym.Ctx.cur.axiom(z3.Implies(n > 0, And(inside(p0, n), s.G(p0) == T(0))))
        return {"the target": lambda q: Imp(inside(q, n), s.G(q) == T(q))}
    c = HoareContract("shuffle reaches every arrangement", fn("random.shuffle(a)", dict(namespace(), random=random)), TYPES, post, invs=[inv], pre=size, pre_q=target)
    c.draw = draw
    return c


def seq_items():
    import itertools
    import random
    from sonolus.script.array import Array
    from sonolus.script.containers import VarArray
    from sonolus.script.num import Num
    from sonolus.script.record import Record
    L = []
    ns = dict(api(), Array=Array, VarArray=VarArray, Num=Num)
    exec("class Pt(Record):\n    x: float\n    y: float\n", dict(ns, Record=Record), ns)

    def src(code):
        return front.src_fn("def f():\n" + "\n".join("    " + l for l in code.split("\n")) + "\n    done(1)\n", ns)
    for n in (1, 2, 3, 4):
        cells = lambda x, n=n: [float(x[i]) for i in range(n)]  # noqa: E731
        sample = lambda r, n=n: dict(enumerate(r.sample(range(1, 50), n)))  # noqa: E731
        L.append(Scripted(f"shuffle Array {n}", src(f"a = inps(Array[Num, {n}], 0)\nrandom.shuffle(a)\nout(0, a)"), sample, lambda x, c=cells: list(itertools.permutations(c(x))), draws=n))
        L.append(Scripted(f"choice Array {n}", src(f"a = inps(Array[Num, {n}], 0)\nout(0, random.choice(a))"), sample, lambda x, c=cells: [(q,) for q in c(x)]))
        vs = lambda r, n=n: {0: n, **{i + 1: q for i, q in enumerate(r.sample(range(1, 50), 4))}}  # noqa: E731
        L.append(Scripted(f"choice VarArray {n}", src("a = inps(VarArray[Num, 4], 0)\nout(0, random.choice(a))"), vs, lambda x, n=n: [(float(x[i + 1]),) for i in range(n)]))
        L.append(Scripted(f"shuffle VarArray {n}", src("a = inps(VarArray[Num, 4], 0)\nrandom.shuffle(a)\nout(0, a)"), vs, lambda x, n=n: [(float(n), *p, *[float(x[i + 1]) for i in range(n, 4)]) for p in itertools.permutations([float(x[i + 1]) for i in range(n)])], draws=n))
    L.append(Scripted("method shuffle of records", src("a = inps(Array[Pt, 3], 0)\na.shuffle()\nout(0, a)"), lambda r: dict(enumerate(r.sample(range(1, 50), 6))),
                      lambda x: [tuple(float(c) for q in p for c in q) for p in itertools.permutations([(x[0], x[1]), (x[2], x[3]), (x[4], x[5])])], draws=3))
    L.append(Scripted("choice of records", src("a = inps(Array[Pt, 3], 0)\np = random.choice(a)\nout(0, p)"), lambda r: dict(enumerate(r.sample(range(1, 50), 6))), lambda x: [(float(x[2 * i]), float(x[2 * i + 1])) for i in range(3)]))
    L.append(Scripted("choice of a range", src("out(0, random.choice(range(inp(0), inp(1), 3)))"), lambda r: (lambda a: {0: a, 1: a + r.randint(1, 14)})(r.randint(-9, 9)), lambda x: [(float(q),) for q in range(x[0], x[1], 3)]))
    L.append(Scripted("two draws", src("x = random.randrange(2)\ny = random.randrange(3)\nz = random.randrange(2)\nout(0, (x, y, z, x))"), lambda r: {}, lambda x: [(float(a), float(b), float(c), float(a)) for a in range(2) for b in range(3) for c in range(2)], draws=3))
    L.append(Scripted("draws in a loop", src("i = 0\ns = 0\nwhile i < 3:\n    s = s * 2 + random.randint(0, 1)\n    i += 1\nout(0, s)"), lambda r: {}, lambda x: [(float(a),) for a in range(8)], draws=3))
    L.append(Scripted("constant draw under a condition", src("x = 5\nif inp(0) > 0:\n    x = random.randint(3, 4)\nout(0, x)\nout(1, x)"), lambda r: {0: r.choice([0, 1])}, lambda x: [(3.0, 3.0), (4.0, 4.0)] if x[0] else [(5.0, 5.0)]))
    big = (1, 2, 5, 9, 20)

    def keep(xs, x):
        return None
    c = Real("shuffle permutes", "random.shuffle(a)", None, big, shuffle_contract(), ns={"random": random})
    c.wrong = lambda xs, x, got: None if sorted(xs) == sorted(got) else "not a rearrangement"
    L.append(c)
    c = Real("shuffle reaches every arrangement", "random.shuffle(a)", None, big, reach_contract(), ns={"random": random})
    c.wrong = lambda xs, x, got: None if sorted(xs) == sorted(got) else "not a rearrangement"
    L.append(c)
    c = Real("choice", "out(0, random.choice(a))", None, big, choice_contract(), ns={"random": random})
    c.wrong = lambda xs, x, got: None if got == xs else "the array changed"
    L.append(c)
    return L


def items():
    global _items
    if _items is None:
        _items = int_items() + float_items() + seq_items()
    return _items


def prove(i, parts):
    return merge(*[pack(x.contract.prove()) for x in items()[i::parts] if x.contract is not None])


def run(i, parts, seed, n, secs):
    from vp import contract
    return contract.sweep(items()[i::parts], seed, n, secs)


def tasks(tier, seed):
    q = tier == "quick"
    return ([Task("real", "prove", i, 12, timeout=280) for i in range(12)] + [Task("real", "run", i, 8, seed, 3 if q else 60, 60 if q else 400, timeout=600) for i in range(8)])


def replay(o):
    from vp import contract
    r = contract.replay(items(), o) if not any((x.contract is not None and x.contract.name) == o["name"].split(":")[0] and isinstance(x, Scripted) for x in items()) else {"undecided": True}
    if r.get("violations"):
        return r
    w = contract.sweep(items(), 7, 8, 150)
    return {"violations": w["violations"][:1]} if w["violations"] else {**r, "undecided": True}
