"""C18: interpolation and interval functions satisfy their defining equations.

Contracts, over all reals, on the compiled functions of sonolus.script.interval (their graphs) and on their plain-Python bodies:
  lerp          ensures a + (b - a) * t;  lerp(.., 0) = a, lerp(.., 1) = b;  any record with +, -, * : component-wise
  unlerp, remap requires a != b; ensures the inverse of lerp, the affine map taking a to c and b to d
  *_clamped     ensures the unclamped value for t in [0, 1] (x in the interval), the nearer end outside
  clamp         requires a <= b; ensures the nearest point of [a, b]
  Interval      containment, intersection, shrink, expand, + - * / //, length, mid, is_empty, lerp..clamp: by definition
  interp        requires xp strictly increasing; ensures the segment's line between two neighbours, the first and last line outside
  interp_clamped  the same, the end values outside"""
from vp.check import Task
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["interval.lerp", "interval.lerp_clamped", "interval._num_lerp", "interval._num_lerp_clamped", "interval._generic_lerp", "interval._generic_lerp_clamped", "interval.unlerp", "interval.unlerp_clamped",
                  "interval.remap", "interval.remap_clamped", "interval.clamp", "interval.interp", "interval.interp_clamped", "Interval (all methods and properties)"],
    "trusted": ["z3", "the runtime operations Lerp, Unlerp, Remap, Clamp as proved of the reference interpreter (C10)", "the front end's translation of these functions (C22) and the optimizer (C01)"],
    "assumptions": ["floating-point arithmetic treated as real arithmetic in the proofs (bounded part: relative 1e-9)", "interp and interp_clamped: two to six points, each for all values, and up to 12 bounded"],
    "rule": "bounded part: every function in plain Python and compiled at every level on end points, points between and outside, negative and degenerate ranges",
    "technique": "front-end compiled functions executed symbolically over the reals, plain bodies executed symbolically; postconditions discharged by z3",
    "deadline": {"quick": 300, "thorough": 700},
}


def unit(t):
    return min(1, max(0, t))


def items():
    from vp import front
    from vp.contract import Contract, Item, Skip, conj, disj, iff, imp, ite, neg
    A = front.api()
    inp, inps, out = A["inp"], A["inps"], A["out"]
    from sonolus.script import interval as iv
    from sonolus.script.array import Array
    from sonolus.script.containers import VarArray
    from sonolus.script.interval import Interval
    from sonolus.script.vec import Vec2
    L = []

    def add(name, fn, n, ref, post=None, pre=None, sample=None, plain=True, types="real", **kw):
        def s(r):
            vals = [r.choice([0, 1, -1, 2, 0.5, -3.5, r.uniform(-10, 10), r.uniform(-1, 1), r.randint(-4, 4)]) for _ in range(n)]
            if n >= 2 and r.random() < 0.3:
                vals[r.randrange(n)] = vals[r.randrange(n)]
            return dict(enumerate(vals))
        L.append(Item(name, fn, sample or s, ref, Contract(name, fn, types, post, pre) if post is not None else None, tol=1e-9, plain=plain, **kw))

    def src(code, **ns):
        return front.src_fn(code, {"inp": inp, "inps": inps, "out": out, "Interval": Interval, "Array": Array, "VarArray": VarArray, "Vec2": Vec2, **vars_of(iv), **ns})

    def vars_of(m):
        return {k: getattr(m, k) for k in ("lerp", "lerp_clamped", "unlerp", "unlerp_clamped", "remap", "remap_clamped", "clamp", "interp", "interp_clamped")}

    def cl(t):
        return ite(t <= 0, 0, ite(t >= 1, 1, t))

    def mn(a, b):
        return ite(b < a, b, a)

    def mx(a, b):
        return ite(b > a, b, a)

    def call(name, n):
        return src(f"def f():\n    out(0, {name}({', '.join(f'inp({i})' for i in range(n))}))\n")

    def need(c):
        if not c:
            raise Skip
    # ---- numbers
    add("lerp", call("lerp", 3), 3, lambda x: [x[0] + (x[1] - x[0]) * x[2]], lambda v, o: {
        "value": o[0] == v[0] + (v[1] - v[0]) * v[2], "at 0": imp(v[2] == 0, o[0] == v[0]), "at 1": imp(v[2] == 1, o[0] == v[1])})
    add("lerp_clamped", call("lerp_clamped", 3), 3, lambda x: [x[0] + (x[1] - x[0]) * unit(x[2])], lambda v, o: {
        "inside": imp(conj(v[2] >= 0, v[2] <= 1), o[0] == v[0] + (v[1] - v[0]) * v[2]), "below": imp(v[2] <= 0, o[0] == v[0]), "above": imp(v[2] >= 1, o[0] == v[1])})

    def unlerp_ref(x):
        need(x[0] != x[1])
        return [(x[2] - x[0]) / (x[1] - x[0])]
    add("unlerp", call("unlerp", 3), 3, unlerp_ref, lambda v, o: {"inverse of lerp": v[0] + (v[1] - v[0]) * o[0] == v[2]}, lambda v: v[0] != v[1])
    add("unlerp of lerp", src("def f():\n    out(0, unlerp(inp(0), inp(1), lerp(inp(0), inp(1), inp(2))))\n    out(1, lerp(inp(0), inp(1), unlerp(inp(0), inp(1), inp(2))))\n"), 3,
        lambda x: (need(abs(x[0] - x[1]) > 1e-3), [x[2], x[2]])[1], lambda v, o: {"inverse": o[0] == v[2], "inverse the other way": o[1] == v[2]}, lambda v: v[0] != v[1])
    add("unlerp_clamped", call("unlerp_clamped", 3), 3, lambda x: [unit(unlerp_ref(x)[0])], lambda v, o: {
        "in range": conj(o[0] >= 0, o[0] <= 1),
        "value": disj(v[0] + (v[1] - v[0]) * o[0] == v[2], conj(o[0] == 0, (v[2] - v[0]) * (v[1] - v[0]) <= 0), conj(o[0] == 1, (v[2] - v[1]) * (v[1] - v[0]) >= 0))}, lambda v: v[0] != v[1])

    def remap_ref(x, u=lambda t: t):
        need(x[0] != x[1])
        return [x[2] + (x[3] - x[2]) * u((x[4] - x[0]) / (x[1] - x[0]))]
    add("remap", call("remap", 5), 5, remap_ref, lambda v, o: {"affine map": (o[0] - v[2]) * (v[1] - v[0]) == (v[3] - v[2]) * (v[4] - v[0])}, lambda v: v[0] != v[1])
    add("remap_clamped", call("remap_clamped", 5), 5, lambda x: remap_ref(x, unit), lambda v, o: {
        "inside": imp(conj((v[4] - v[0]) * (v[1] - v[0]) >= 0, (v[1] - v[4]) * (v[1] - v[0]) >= 0), (o[0] - v[2]) * (v[1] - v[0]) == (v[3] - v[2]) * (v[4] - v[0])),
        "before": imp((v[4] - v[0]) * (v[1] - v[0]) <= 0, o[0] == v[2]), "after": imp((v[1] - v[4]) * (v[1] - v[0]) <= 0, o[0] == v[3])}, lambda v: v[0] != v[1])

    def clamp_ref(x):
        need(x[1] <= x[2])
        return [min(max(x[0], x[1]), x[2])]
    clamped = lambda x, a, b, y: {"inside": imp(conj(a <= x, x <= b), y == x), "below": imp(x <= a, y == a), "above": imp(x >= b, y == b)}
    add("clamp", call("clamp", 3), 3, clamp_ref, lambda v, o: clamped(v[0], v[1], v[2], o[0]), lambda v: v[1] <= v[2])
    # ---- other types
    for nm in ("lerp", "lerp_clamped"):
        u = (lambda t: t) if nm == "lerp" else unit
        us = (lambda t: t) if nm == "lerp" else cl
        add(nm + " of vectors", src(f"def f():\n    out(0, {nm}(Vec2(inp(0), inp(1)), Vec2(inp(2), inp(3)), inp(4)))\n"), 5,
            lambda x, u=u: [x[0] + (x[2] - x[0]) * u(x[4]), x[1] + (x[3] - x[1]) * u(x[4])],
            lambda v, o, us=us: {"component-wise": conj(o[0] == v[0] + (v[2] - v[0]) * us(v[4]), o[1] == v[1] + (v[3] - v[1]) * us(v[4]))})
    # ---- intervals
    I2 = "Interval(inp(0), inp(1))"
    J2 = "Interval(inp(2), inp(3))"

    def one(name, e, n, ref, post, pre=None, **kw):
        add("Interval " + name, src(f"def f():\n    out(0, {e})\n"), n, ref, post, pre, **kw)
    one("fields", I2, 2, lambda x: [x[0], x[1]], lambda v, o: {"start, end": conj(o[0] == v[0], o[1] == v[1])})
    one("zero", "Interval.zero()", 0, lambda x: [0, 0], lambda v, o: {"zero": conj(o[0] == 0, o[1] == 0)})
    one("length", I2 + ".length", 2, lambda x: [x[1] - x[0]], lambda v, o: {"length": o[0] == v[1] - v[0]})
    one("is_empty", I2 + ".is_empty", 2, lambda x: [x[0] > x[1]], lambda v, o: {"start > end": iff(o[0] != 0, v[0] > v[1])})
    one("mid", I2 + ".mid", 2, lambda x: [(x[0] + x[1]) / 2], lambda v, o: {"mid": o[0] * 2 == v[0] + v[1]})
    one("tuple", I2 + ".tuple", 2, lambda x: [x[0], x[1]], lambda v, o: {"tuple": conj(o[0] == v[0], o[1] == v[1])})
    one("contains a number", f"inp(2) in {I2}", 3, lambda x: [x[0] <= x[2] <= x[1]], lambda v, o: {"start <= x <= end": iff(o[0] != 0, conj(v[0] <= v[2], v[2] <= v[1]))})
    one("contains an interval", f"{J2} in {I2}", 4, lambda x: [x[0] <= x[2] and x[3] <= x[1]], lambda v, o: {"both ends": iff(o[0] != 0, conj(v[0] <= v[2], v[3] <= v[1]))})
    for op, f in (("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b)):
        one(op, f"{I2} {op} inp(2)", 3, lambda x, f=f: [f(x[0], x[2]), f(x[1], x[2])], lambda v, o, f=f: {"both ends": conj(o[0] == f(v[0], v[2]), o[1] == f(v[1], v[2]))})
    one("/", f"{I2} / inp(2)", 3, lambda x: (need(x[2] != 0), [x[0] / x[2], x[1] / x[2]])[1], lambda v, o: {"both ends": conj(o[0] * v[2] == v[0], o[1] * v[2] == v[1])}, lambda v: v[2] != 0)
    one("//", f"{I2} // inp(2)", 3, lambda x: (need(x[2] != 0), [x[0] // x[2], x[1] // x[2]])[1],
        lambda v, o: {"both ends": conj(*[conj((o[i] * v[2] - v[i]) * v[2] <= 0, ((o[i] + 1) * v[2] - v[i]) * v[2] > 0) for i in (0, 1)])}, lambda v: v[2] != 0,
        sample=lambda r: {0: r.randint(-20, 20), 1: r.randint(-20, 20), 2: r.choice([1, 2, -2, 3, 0.5, -7])})
    one("&", f"{I2} & {J2}", 4, lambda x: [max(x[0], x[2]), min(x[1], x[3])], lambda v, o: {"intersection": conj(o[0] == mx(v[0], v[2]), o[1] == mn(v[1], v[3]))})
    add("Interval & as sets", src(f"def f():\n    out(0, inp(4) in ({I2} & {J2}))\n"), 5, lambda x: [x[0] <= x[4] <= x[1] and x[2] <= x[4] <= x[3]],
        lambda v, o: {"in both": iff(o[0] != 0, conj(v[0] <= v[4], v[4] <= v[1], v[2] <= v[4], v[4] <= v[3]))})
    one("shrink", f"{I2}.shrink(inp(2))", 3, lambda x: [x[0] + x[2], x[1] - x[2]], lambda v, o: {"both ends": conj(o[0] == v[0] + v[2], o[1] == v[1] - v[2])})
    one("expand", f"{I2}.expand(inp(2))", 3, lambda x: [x[0] - x[2], x[1] + x[2]], lambda v, o: {"both ends": conj(o[0] == v[0] - v[2], o[1] == v[1] + v[2])})
    one("lerp", f"{I2}.lerp(inp(2))", 3, lambda x: [x[0] + (x[1] - x[0]) * x[2]], lambda v, o: {"value": o[0] == v[0] + (v[1] - v[0]) * v[2]})
    one("lerp_clamped", f"{I2}.lerp_clamped(inp(2))", 3, lambda x: [x[0] + (x[1] - x[0]) * unit(x[2])], lambda v, o: {"value": o[0] == v[0] + (v[1] - v[0]) * cl(v[2])})
    one("unlerp", f"{I2}.unlerp(inp(2))", 3, unlerp_ref, lambda v, o: {"inverse of lerp": v[0] + (v[1] - v[0]) * o[0] == v[2]}, lambda v: v[0] != v[1])
    one("unlerp_clamped", f"{I2}.unlerp_clamped(inp(2))", 3, lambda x: [unit(unlerp_ref(x)[0])], lambda v, o: {
        "value": disj(conj(o[0] >= 0, o[0] <= 1, v[0] + (v[1] - v[0]) * o[0] == v[2]), conj(o[0] == 0, v[2] <= v[0]), conj(o[0] == 1, v[2] >= v[1]))}, lambda v: v[0] < v[1],
        sample=lambda r: {0: 1, 1: r.choice([2, 1.5, 9]), 2: r.uniform(-2, 10)})
    one("clamp", f"{I2}.clamp(inp(2))", 3, lambda x: clamp_ref({0: x[2], 1: x[0], 2: x[1]}), lambda v, o: clamped(v[2], v[0], v[1], o[0]), lambda v: v[0] <= v[1])

    # ---- piecewise interpolation: xp in cells 0.., fp in cells n.., x in cell 2n
    def line(v, n, i):
        return lambda y, x: (y - v[n + i]) * (v[i + 1] - v[i]) == (v[n + i + 1] - v[n + i]) * (x - v[i])

    def interp_post(n, clampd):
        def post(v, o):
            x, y = v[2 * n], o[0]
            d = {f"segment {i}": imp(conj(v[i] <= x, x <= v[i + 1]), line(v, n, i)(y, x)) for i in range(n - 1)}
            d.update({f"through point {i}": imp(x == v[i], y == v[n + i]) for i in range(n)})
            d["before"] = imp(x <= v[0], y == v[n] if clampd else line(v, n, 0)(y, x))
            d["after"] = imp(x >= v[n - 1], y == v[2 * n - 1] if clampd else line(v, n, n - 2)(y, x))
            return d
        return post

    def interp_ref(n, clampd, at=0):
        def ref(x):
            xp, fp, t = [x[at + i] for i in range(n)], [x[at + n + i] for i in range(n)], x[at + 2 * n]
            if clampd and t <= xp[0]:
                return [fp[0]]
            if clampd and t >= xp[-1]:
                return [fp[-1]]
            i = max(0, min(n - 2, sum(1 for p in xp if p < t) - 1))
            return [fp[i] + (fp[i + 1] - fp[i]) * (t - xp[i]) / (xp[i + 1] - xp[i])]
        return ref

    def interp_sample(n):
        def s(r):
            xs = [r.choice([-5, 0, r.uniform(-5, 5)])]
            while len(xs) < n:
                xs.append(xs[-1] + r.choice([1, 0.5, 3, r.uniform(0.01, 4)]))
            fs = [r.choice([0, 1, -2, r.uniform(-9, 9)]) for _ in range(n)]
            t = r.choice([r.choice(xs), xs[0] - r.uniform(0, 5), xs[-1] + r.uniform(0, 5), r.uniform(xs[0], xs[-1]), r.uniform(xs[0], xs[-1])])
            return dict(enumerate(xs + fs + [t]))
        return s

    def increasing(n):
        return lambda v: conj(*[v[i] < v[i + 1] for i in range(n - 1)])
    for nm, clampd in (("interp", False), ("interp_clamped", True)):
        for n in (2, 3, 4, 5, 6, 9, 12):
            c = n <= 6
            xs, fs = ", ".join(f"inp({i})" for i in range(n)), ", ".join(f"inp({n + i})" for i in range(n))
            kw = dict(post=interp_post(n, clampd) if c else None, pre=increasing(n), sample=interp_sample(n))
            add(f"{nm} tuple {n}", src(f"def f():\n    out(0, {nm}(({xs}), ({fs}), inp({2 * n})))\n"), 2 * n + 1, interp_ref(n, clampd), **kw)
            add(f"{nm} array {n}", src(f"def f():\n    out(0, {nm}(inps(Array[float, {n}], 0), inps(Array[float, {n}], {n}), inp({2 * n})))\n"), 2 * n + 1, interp_ref(n, clampd), **kw)
        for n in (2, 3, 4):
            # a run-time number of points: capacity 6, the two arrays filled with n points
            body = "".join(f"    xs.append(inp({i}))\n    fs.append(inp({n + i}))\n" for i in range(n))
            add(f"{nm} var array {n}", src(f"def f():\n    xs = VarArray[float, 6].new()\n    fs = VarArray[float, 6].new()\n{body}    out(0, {nm}(xs, fs, inp({2 * n})))\n"), 2 * n + 1,
                interp_ref(n, clampd), post=interp_post(n, clampd), pre=increasing(n), sample=interp_sample(n))
        # constant points
        add(f"{nm} constants", src(f"def f():\n    out(0, {nm}((-1, 0.5, 2, 8), (3, 1, 1, -4), inp(0)))\n"), 1,
            lambda x, g=interp_ref(4, clampd): g([-1, 0.5, 2, 8, 3, 1, 1, -4, x[0]]), sample=lambda r: {0: r.choice([-1, 0.5, 2, 8, r.uniform(-4, 12), r.uniform(-4, 12)])},
            post=lambda v, o, g=interp_post(4, clampd): g([q(z) for z in (-1, 0.5, 2, 8, 3, 1, 1, -4)] + [v[0]], o))
    return L


def q(x):
    import z3
    from fractions import Fraction
    from vp.sym import SReal
    f = Fraction(x)
    return SReal(z3.RealVal(f"{f.numerator}/{f.denominator}"))


def bodies():
    """the plain-Python bodies of the runtime functions, over the reals"""
    from vp import pysrc
    from vp.contract import conj, imp, ite
    from vp.sym import Ctx, SReal
    iv = pysrc.load("sonolus.script.interval")
    u = lambda t: ite(t <= 0, 0, ite(t >= 1, 1, t))
    fs = {
        "_num_lerp": (3, lambda a, b, t: a + (b - a) * t, None), "_num_lerp_clamped": (3, lambda a, b, t: a + (b - a) * u(t), None),
        "unlerp": (3, lambda a, b, x: (x - a) / (b - a), 1), "unlerp_clamped": (3, lambda a, b, x: u((x - a) / (b - a)), 1),
        "remap": (5, lambda a, b, c, d, x: c + (d - c) * (x - a) / (b - a), 1), "remap_clamped": (5, lambda a, b, c, d, x: c + (d - c) * u((x - a) / (b - a)), 1),
        "clamp": (3, lambda x, a, b: ite(x <= a, a, ite(x >= b, b, x)), 2),
    }
    res = []
    for n, (k, f, need) in fs.items():
        c = Ctx("plain " + n, budget_s=40, prove_ms=15000)

        def run(n=n, k=k, f=f, need=need, c=c):
            v = [SReal.var(f"x{i}") for i in range(k)]
            if need == 1:
                c.assume(v[0] != v[1])
            if need == 2:
                c.assume(v[1] <= v[2])
            c.cover("run")
            c.prove("value", getattr(iv, n)(*v) == f(*v))
        c.run(run)
        res.append(pack(c))
    return merge(*res)


def prove(i, parts):
    L = [x for x in items() if x.contract is not None]
    return merge(*[pack(L[j].contract.prove()) for j in range(i, len(L), parts)])


def run(i, parts, seed, n):
    from vp import contract
    L = items()
    return contract.sweep([L[j] for j in range(i, len(L), parts)], seed, n)


def constants(seed, n):
    """arguments known at compile time"""
    from vp import front
    from vp.contract import Compiled, close
    from sonolus.script import interval as iv
    A = front.api()
    r = random.Random(seed)
    bad, cnt = [], 0
    for nm, k in (("lerp", 3), ("lerp_clamped", 3), ("unlerp", 3), ("unlerp_clamped", 3), ("remap", 5), ("remap_clamped", 5), ("clamp", 3)):
        fn = getattr(iv, nm)
        cases = []
        while len(cases) < n:
            a = [r.choice([0, 1, -1, 0.5, 3, r.uniform(-5, 5)]) for _ in range(k)]
            if (nm == "clamp" and a[1] > a[2]) or (nm[0] in "ur" and a[0] == a[1]):
                continue
            cases.append(a)
        # some arguments constant, the others not
        src = "def f():\n"
        cells = {}
        for j, a in enumerate(cases):
            args = []
            for x in a:
                if r.random() < 0.6:
                    args.append(repr(x))
                else:
                    cells[len(cells)] = x
                    args.append(f"inp({len(cells) - 1})")
            src += f"    out({j}, g({', '.join(args)}))\n"
        f = front.src_fn(src, {"inp": A["inp"], "out": A["out"], "g": fn})
        want = [fn(*a) for a in cases]
        for lev, res in Compiled(f).run(cells).items():
            cnt += n
            for j, a in enumerate(cases):
                if res[0] != "ok" or not close(res[2][j], want[j], 1e-9):
                    bad.append({"key": nm + " constants", "what": f"{nm}{tuple(a)} compiled with constants ({lev}) is {res[2][j] if res[0] == 'ok' else res[1]}, in Python {want[j]}", "input": {"function": nm, "args": a}})
                    break
    return {"violations": bad, "bounded": {"name": "constants", "evaluations": cnt, "distinct": cnt, "samples": [], "bound": f"{n} calls per function"}}


def tasks(tier, seed):
    q_ = tier == "quick"
    return ([Task("real", "prove", i, 8, timeout=250) for i in range(8)] + [Task("real", "bodies", timeout=100), Task("real", "constants", seed, 30 if q_ else 600, timeout=300)] +
            [Task("real", "run", i, 6, seed, 40 if q_ else 1500, timeout=600) for i in range(6)])


def replay(o):
    from vp import contract
    return contract.replay(items(), o)
