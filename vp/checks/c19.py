"""C19: easing functions satisfy their family identities everywhere.

Contracts, for every real x, on every ease_* function of sonolus.script.easing (plain form) and every function registered for
an Ease operation in the reference interpreter:
  all forms     ensures 0 for x <= 0 and 1 for x >= 1 (the curves of expo and elastic, which only come close to 0, are snapped there)
  in forms      ensures the curve of the family, which is 0 at 0 and 1 at 1
  out forms     ensures 1 - in(1 - x)
  in-out forms  ensures in(2x) / 2 below 1/2, out(2x - 1) / 2 + 1/2 from there on (back and elastic: with the customary adjusted constant)
  out-in forms  ensures out(2x) / 2 below 1/2, in(2x - 1) / 2 + 1/2 from there on
  the compiled form of each function is the Ease operation of its name applied to its argument; linstep, smoothstep,
  smootherstep, step_start, step_end compiled and plain: their polynomials of the clamped argument."""
from vp.check import Task
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["easing.ease_{in,out,in_out,out_in}_{back,circ,cubic,elastic,expo,quad,quart,quint,sine} (40 functions)", "interpret._ease_* (40 functions)", "interpret._EASE_FUNCS", "easing.linstep",
                  "easing.smoothstep", "easing.smootherstep", "easing.step_start", "easing.step_end", "native_function wrappers of easing", "interval.clamp"],
    "trusted": ["z3", "shift and parity identities of sine and cosine, the defining equation of the square root, 2 ** (a + k) = 2 ** k * 2 ** a"],
    "assumptions": ["floating-point arithmetic treated as real arithmetic in the proofs (bounded part: equal to 1e-9)", "compile-time evaluation of Ease operations equals the reference runtime's (C02)"],
    "rule": "bounded part: every function at endpoints, halves, subnormal and random arguments in plain Python, as a compiled constant, and at run time at every level",
    "technique": "symbolic execution of the easing functions over the reals with sine, square root and powers of two in normal form; equalities discharged by z3; compiled forms by symbolic execution of their graphs",
    "deadline": {"quick": 200, "thorough": 600},
}

KINDS = ["Back", "Circ", "Cubic", "Elastic", "Expo", "Quad", "Quart", "Quint", "Sine"]
MODES = ["In", "Out", "InOut", "OutIn"]
SNAKE = {"In": "in", "Out": "out", "InOut": "in_out", "OutIn": "out_in"}
NAMES = [(m, k) for m in MODES for k in KINDS]


def family(kind, mode, m, p2):
    """the in form on [0, 1] as a function; m: math, p2: t -> 2 ** t"""
    c1 = 1.70158
    if kind == "Back":
        c = c1 * 1.525 if mode == "InOut" else c1
        return lambda t: (c + 1) * t ** 3 - c * t ** 2
    if kind == "Elastic":
        # the oscillation has period p and is at its extreme at 1
        p = 4.5 if mode == "InOut" else 3
        return lambda t: -p2(10 * t - 10) * m.sin((t * 10 - 10 - p / 4) * (2 * m.pi / p))
    return {
        "Quad": lambda t: t ** 2, "Cubic": lambda t: t ** 3, "Quart": lambda t: t ** 4, "Quint": lambda t: t ** 5,
        "Circ": lambda t: 1 - m.sqrt(1 - t ** 2), "Sine": lambda t: 1 - m.cos(t * m.pi / 2),
        "Expo": lambda t: p2(10 * t - 10)}[kind]


def spec(kind, mode, m, p2):
    f = family(kind, mode, m, p2)

    def out(t):
        return 1 - f(1 - t)

    def g(x):
        if x <= 0:
            return 0
        if x >= 1:
            return 1
        if mode == "In":
            return f(x)
        if mode == "Out":
            return out(x)
        a, b = (f, out) if mode == "InOut" else (out, f)
        return a(2 * x) / 2 if x < 0.5 else b(2 * x - 1) / 2 + 0.5
    return g


STEPS = {
    "linstep": lambda t, x: t, "smoothstep": lambda t, x: 3 * t ** 2 - 2 * t ** 3, "smootherstep": lambda t, x: 6 * t ** 5 - 15 * t ** 4 + 10 * t ** 3,
    "step_start": lambda t, x: 1 if x >= 0 else 0, "step_end": lambda t, x: 1 if x >= 1 else 0,
}


def modules():
    from vp import pysrc, trig
    trig.install()
    iv = pysrc.load("sonolus.script.interval")
    ea = pysrc.load("sonolus.script.easing")
    it = pysrc.load("sonolus.backend.interpret")
    for m in (ea, it, iv):
        for k, v in list(m.__dict__.items()):
            if v is math or v is __import__("vp.sym", fromlist=["MATH"]).MATH:
                m.__dict__[k] = trig.MATH
    ea.clamp = iv.clamp
    return ea, it


def close(a, b):
    """a = b, or at most 1e-9 apart (constants rounded differently)"""
    import z3
    from vp.sym import Ctx, SBool, _nt
    x, y = _nt(a, True), _nt(b, True)
    if z3.is_true(z3.simplify(x - y == 0, som=True)):
        return SBool(z3.BoolVal(True))
    eq = SBool(x == y)
    r, _ = Ctx.cur.check(z3.Not(eq.t), ms=10000)
    if r == z3.unsat:
        return eq
    e = z3.RealVal("1/1000000000")
    return SBool(z3.And(x - y <= e, y - x <= e))


def prove(mode, part):
    from vp import trig
    from vp.sym import Ctx, SReal
    ea, it = modules()
    from sonolus.backend.ops import Op
    res = []
    for kind in KINDS[part::3]:
        name = f"Ease{mode}{kind}"
        sp = spec(kind, mode, trig.MATH, trig.exp2)
        for who, fn in (("plain", getattr(ea, f"ease_{SNAKE[mode]}_{kind.lower()}")), ("runtime", it._EASE_FUNCS.get(Op[name]))):
            c = Ctx(f"{name} {who}", budget_s=60, prove_ms=20000)

            def run(fn=fn, c=c):
                x = SReal.var("x")
                c.cover("run")
                y = fn(x)
                c.prove("family", close(y, sp(x)))
            c.run(run)
            res.append(pack(c))
            c = Ctx(f"{name} {who} ends", budget_s=60, prove_ms=20000)

            def ends(fn=fn, c=c):
                c.prove("0 at 0", close(fn(0), 0))
                c.prove("1 at 1", close(fn(1), 1))
                x = SReal.var("x")
                if bool(x <= 0):
                    c.prove("clamped below", close(fn(x), 0))
                elif bool(x >= 1):
                    c.prove("clamped above", close(fn(x), 1))
                c.cover("ends")
            c.run(ends)
            res.append(pack(c))
    return merge(*res)


def items():
    from vp import front
    from vp.contract import Contract, Item, conj, ite
    A = front.api()
    inp, out = A["inp"], A["out"]
    from sonolus.script import easing
    L = []
    for m, k in NAMES:
        fn = f"ease_{SNAKE[m]}_{k.lower()}"
        f = front.src_fn("def f():\n    out(0, g(inp(0)))\n", {"inp": inp, "out": out, "g": getattr(easing, fn)})
        L.append(Item(fn, f, sample, lambda x, m=m, k=k: [value(k, m, x[0])], op_contract(fn, f, f"Ease{m}{k}"), tol=1e-9))
    for n, p in STEPS.items():
        f = front.src_fn("def f():\n    out(0, g(inp(0)))\n", {"inp": inp, "out": out, "g": getattr(easing, n)})

        def post(v, o, p=p, n=n):
            if n.startswith("step"):
                return {"step": o[0] == ite(v[0] >= (0 if n == "step_start" else 1), 1, 0)}
            t = ite(v[0] <= 0, 0, ite(v[0] >= 1, 1, v[0]))
            return {"polynomial of the clamped argument": o[0] == p(t, v[0])}
        L.append(Item(n, f, sample, lambda x, p=p: [p(min(1, max(0, x[0])), x[0])], Contract(n, f, "real", post), tol=1e-9))
    return L


def op_contract(name, f, op):
    import z3
    from vp.contract import Contract
    from vp.sym import SReal, _nt, uf

    class C(Contract):
        def handlers(self):
            class H:
                def get(_, n, d=None):
                    if n.startswith("Ease"):
                        return lambda run, x: SReal(uf(n, z3.RealSort(), z3.RealSort())(_nt(x, True)))
                    return d
            return H()
    return C(name, f, "real", lambda v, o: {"the operation of its name": o[0] == SReal(uf(op, z3.RealSort(), z3.RealSort())(_nt(v[0], True)))})


def value(kind, mode, x):
    return spec(kind, mode, math, lambda t: 2.0 ** t)(x)


def sample(r):
    return {0: r.choice([0, 1, 0.5, -0.0, 0.25, 0.75, 5e-324, -1e-300, 1 - 2 ** -53, 0.5 - 2 ** -54, 2, -3, 1e18, r.random(), r.random(), r.random(), r.uniform(-1, 2)])}


def compiled():
    """the compiled forms: the operation of the function's name"""
    return merge(*[pack(i.contract.prove()) for i in items()])


def run(i, parts, seed, n):
    from vp import contract
    L = items()
    return contract.sweep([L[j] for j in range(i, len(L), parts)], seed, n)


def plain(seed, n):
    """plain Python, the runtime functions and constants compiled in"""
    from vp import front
    from vp.contract import Compiled
    from sonolus.backend.interpret import _EASE_FUNCS
    from sonolus.backend.ops import Op
    from sonolus.script import easing
    A = front.api()
    r = random.Random(seed)
    bad, cnt = [], 0
    for m, k in NAMES:
        fn = getattr(easing, f"ease_{SNAKE[m]}_{k.lower()}")
        rt = _EASE_FUNCS[Op[f"Ease{m}{k}"]]
        xs = [float(sample(r)[0]) for _ in range(n)] + [0.0, 1.0, 0.5]
        for x in xs:
            cnt += 1
            w = value(k, m, x)
            for who, y in (("plain", fn(x)), ("runtime", rt(x))):
                if not abs(y - w) <= 1e-9:
                    bad.append({"key": f"{fn.__name__} {who}", "what": f"{fn.__name__}({x!r}) is {y!r} ({who}), by definition {w!r}", "input": {"function": fn.__name__, "x": x}})
        src = "def f():\n" + "".join(f"    out({i}, g({x!r}))\n" for i, x in enumerate(xs[:12] + xs[-3:]))
        f = front.src_fn(src, {"out": A["out"], "g": fn})
        for lev, res in Compiled(f).run({}).items():
            cnt += 1
            got = res[2] if res[0] == "ok" else None
            for i, x in enumerate(xs[:12] + xs[-3:]):
                if got is None or not abs(got[i] - value(k, m, x)) <= 1e-9:
                    bad.append({"key": f"{fn.__name__} constant", "what": f"{fn.__name__}({x!r}) compiled with {lev}: {res[1] if got is None else got[i]!r}, by definition {value(k, m, x)!r}",
                                "input": {"function": fn.__name__, "x": x}})
                    break
    for n_, p in STEPS.items():
        for x in xs:
            cnt += 1
            y, w = getattr(easing, n_)(x), p(min(1, max(0, x)), x)
            if not abs(y - w) <= 1e-9:
                bad.append({"key": n_, "what": f"{n_}({x!r}) is {y!r}, by definition {w!r}", "input": {"function": n_, "x": x}})
    return {"violations": bad[:20], "bounded": {"name": "plain, runtime and constant forms", "evaluations": cnt, "distinct": cnt, "samples": [], "bound": f"{n} arguments per function"}}


def tasks(tier, seed):
    q = tier == "quick"
    return ([Task("real", "prove", m, p, timeout=250) for m in MODES for p in range(3)] + [Task("real", "compiled", timeout=120), Task("real", "plain", seed, 60 if q else 3000, timeout=400)] +
            [Task("real", "run", i, 4, seed, 30 if q else 1000, timeout=500) for i in range(4)])


def replay(o):
    return plain(3, 400)
