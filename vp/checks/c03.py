"""C03: simplified expressions keep their value for every operand.

Per instance (every operation with every pattern of known/unknown/equal operands, nested expressions, sets
of possible constants meeting at joins and tested, equal expressions in dominating and in unrelated
blocks) the obligation is: for every double in every memory cell (infinities and NaN included) the emitted
tree stores the same values and takes the same branches as the graph."""
import itertools

from vp.check import Task
from vp.checks import pipe
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["midend._gvn_instr", "midend._run_gvn_inplace", "midend._SCCP._transfer", "midend._SCCP._meet_phi", "midend._SCCP._select_edge",
                  "midend._SCCP._mark_out_edges", "midend._SCCP.decisions", "midend._compute_bool", "midend._collapse_trivial_phis", "midend._canon_branch_not",
                  "midend._run_dce", "kernels.fold_op (contract proved in C02)"],
    "trusted": ["z3 (floating-point theory, uninterpreted functions)", "vp/exe.py, vp/rtspec.py: semantics of graphs and trees"],
    "assumptions": ["documented exceptions: the sign of a zero result, multiplication by a known zero (operands of * are finite), the order of Min/Max operands when one is NaN",
                    "operands outside an operation's domain (division by zero, non-positive base of a power) are excluded",
                    "each instance is proved for every operand value; the instances are all operations times all operand patterns over the listed constants, plus sampled nestings"],
    "rule": "expressions, constant sets and repeated expressions; 10 memories each incl. NaN, infinities, huge and subnormal values; non-trivial when a reference run exists",
    "deadline": {"quick": 300, "thorough": 850},
    "technique": "symbolic execution of expression graph and emitted tree over arbitrary doubles, equality discharged by z3 (bit-exact floating point)",
    "level_note": "proved for every operand value per expression; operand patterns enumerated, nestings sampled",
}
K = [0, 1, 2, -1, 0.5, 3, -2, 0.1, 4, -0.5, 1e300, 5e-324, math.inf, -math.inf, math.nan, 16777217]
UN = ["Abs", "Negate", "Not", "Floor", "Ceil", "Round", "Trunc", "Frac", "Sign", "Degree", "Radian", "Sin", "Cos", "Tan", "Arctan", "Tanh", "Log"]
BIN = ["Add", "Subtract", "Multiply", "Divide", "Mod", "Rem", "Power", "Max", "Min", "Equal", "NotEqual", "Less", "LessOr", "Greater", "GreaterOr", "And", "Or", "Arctan2"]
CMP = ["Equal", "NotEqual", "Less", "LessOr", "Greater", "GreaterOr"]
VALS = [0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 3.0, 7.25, -6.0, 0.1, 1e300, -1e300, 5e-324, math.inf, -math.inf, math.nan, 16777217.0, 0.9999999999999999]


def mems(r, n=10):
    return [{(20, i): r.choice(VALS) if r.random() < 0.7 else draw(r) + 0.0 for i in range(6)} for _ in range(n)]


def _leafs(b):
    return [b.t(f"v{i}") for i in range(3)]


def _prolog(b, vs):
    return [b.set(b.at(v), b.get(20, i)) for i, v in enumerate(vs)]


def _spec(b, exprs, vs, r, label, **kw):
    st = _prolog(b, vs) + [b.set(b.at(21, i), e) for i, e in enumerate(exprs)]
    return pipe.Spec(b.block(*st), mems(r), [20, 21], label=label, special=True, **kw)


RULES = None


def rules():
    """every operation with every pattern of operands"""
    global RULES
    if RULES is None:
        pats = ["v", "same", "var", "neg", "negv", "not", "cmp", "ncmp", "abs"]
        RULES = [(op, None, p) for op in UN for p in pats + [("k", k) for k in K]]
        for op in BIN:
            ps = pats + [("k", k) for k in K]
            RULES += [(op, a, c) for a in ps for c in ps if not (isinstance(a, tuple) and isinstance(c, tuple))]
        for op in ("Add", "Multiply", "Subtract", "And", "Or", "Max", "Min"):
            for a, c in itertools.product(["v", "var", ("k", 0), ("k", 1), ("k", 2), "cmp", "negv"], repeat=2):
                RULES.append((op, ("3", a, c), "v"))
        for op in ("If",):
            for t, x, y in itertools.product(["v", "cmp", ("k", 0), ("k", 1), ("k", math.nan), "not"], ["v", "var", ("k", 1), ("k", 0)], ["v", "var", ("k", 0), ("k", 1)]):
                RULES.append((op, (t, x), y))
        for op in BIN:
            for a, c in [("v", "var"), ("v", "cmp"), ("cmp", "var"), ("cmp", "ncmp"), ("not", "v"), ("v", ("k", 0)), (("k", 1), "v"), ("cmp", ("k", 1)), (("k", 0), "cmp")]:
                for outer in (("Not", "Not"), ("Negate", "Negate"), ("Abs", "Not"), ("Not",), ("Negate",)):
                    if outer[0] not in ("Not", "Abs") and op in ("And", "Or") + tuple(CMP):
                        continue
                    RULES.append((op, ("u", a, outer), c))
        for t, x, y in itertools.product(["v", "cmp"], ["v", "cmp", ("k", 1)], ["var", "ncmp", ("k", 0)]):
            RULES.append(("If", ("uif", t, x), y))
    return RULES


def t_rule(k):
    """four consecutive rules in one graph"""
    b = pipe.Build()
    vs = _leafs(b)
    x, y, z = vs
    r = random.Random(k)

    def arg(p):
        if isinstance(p, tuple):
            return b.c(p[1])
        return {"v": lambda: b.get(x), "same": lambda: b.get(x), "var": lambda: b.get(y), "neg": lambda: b.P("Negate", b.get(x)),
                "negv": lambda: b.P("Negate", b.get(y)), "not": lambda: b.P("Not", b.get(x)), "cmp": lambda: b.P("Less", b.get(x), b.get(y)),
                "ncmp": lambda: b.P("Not", b.P("LessOr", b.get(y), b.get(x))), "abs": lambda: b.P("Abs", b.get(x))}[p]()

    out, lab = [], []
    for op, a, c in rules()[4 * k:4 * k + 4]:
        if a is None:
            e = b.P(op, arg(c))
        elif isinstance(a, tuple) and a[0] == "u":
            e = b.P(op, arg(a[1]), arg(c))
            for o in a[2]:
                e = b.P(o, e)
        elif isinstance(a, tuple) and a[0] == "uif":
            e = b.P("Not", b.P("Not", b.P("If", arg(a[1]), arg(a[2]), arg(c))))
        elif op == "If":
            e = b.P("If", arg(a[0]), arg(a[1]), arg(c))
        elif isinstance(a, tuple) and a[0] == "3":
            e = b.P(op, arg(a[1]), arg(a[2]), arg(c)) if op not in ("Max", "Min") else b.P(op, b.P(op, arg(a[1]), arg(a[2])), arg(c))
        else:
            e = b.P(op, arg(a), arg(c))
        out.append(e)
        lab.append(f"{op}({a},{c})")
    if not out:
        return None
    return _spec(b, out, vs, r, " ".join(lab))


def expr(b, r, vs, d, boolean=False):
    k = r.random()
    if boolean:
        if k < 0.6 or d == 0:
            return b.P(r.choice(CMP), expr(b, r, vs, d - 1), expr(b, r, vs, d - 1))
        if k < 0.8:
            return b.P("Not", expr(b, r, vs, d - 1, r.random() < 0.8))
        return b.P(r.choice(["And", "Or"]), *[expr(b, r, vs, d - 1, r.random() < 0.75) for _ in range(r.randint(2, 3))])
    if d <= 0 or k < 0.12:
        return b.get(r.choice(vs)) if r.random() < 0.65 else b.c(r.choice(K[:12] if r.random() < 0.93 else K))
    if k < 0.4:
        return b.P(r.choice(["Add", "Subtract", "Multiply", "Subtract", "Add"]), expr(b, r, vs, d - 1), expr(b, r, vs, d - 1))
    if k < 0.55:
        return b.P(r.choice(["Negate", "Not", "Abs", "Floor", "Negate", "Not", "Sign", "Trunc"]), expr(b, r, vs, d - 1))
    if k < 0.65:
        return b.P(r.choice(["Max", "Min", "Divide", "Mod", "Power", "Rem"]), expr(b, r, vs, d - 1), expr(b, r, vs, d - 1) if r.random() < 0.5 else b.c(r.choice([1, 2, 3, 0.5])))
    if k < 0.72:
        return b.P("If", expr(b, r, vs, d - 1, r.random() < 0.7), expr(b, r, vs, d - 1), expr(b, r, vs, d - 1))
    if k < 0.78:
        return b.P(r.choice(["Add", "Multiply", "Subtract"]), *[expr(b, r, vs, d - 1) for _ in range(3)])
    return expr(b, r, vs, d - 1, True)


def t_expr(k):
    r = random.Random(k * 67 + 9)
    b = pipe.Build()
    vs = _leafs(b)
    ex = [expr(b, r, vs, r.randint(2, 3)) for _ in range(r.randint(1, 3))]
    if r.random() < 0.4:
        ex.append(ex[0])
    return _spec(b, ex, vs, r, "nested")


def t_sets(k):
    """values known to be one of a few constants, transformed and tested"""
    r = random.Random(k * 71 + 3)
    b = pipe.Build()
    x, y, v = b.t("x"), b.t("y"), b.t("v")
    pool = r.choice([[0, 1, 2, 3], [0, 1], [1, 2, 4, 8], [-1, 0, 1], [0, 0.5, 1, 1.5, 2], [0, 1, math.nan, math.inf, -0.0], [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]])
    e = b.block(b.set(b.at(v), b.get(20, 0)), test=b.get(20, 1))
    j = b.block()
    n = r.randint(2, min(len(pool), 8))
    ks = [r.choice(pool) for _ in range(n)]
    for i, c in enumerate(ks):
        val = b.c(c) if r.random() < 0.93 else b.get(v)
        a = b.block(b.set(b.at(x), val), b.set(b.at(y), b.c(r.choice(pool))))
        a.connect_to(j)
        e.connect_to(a, None if i == n - 1 else i)
    t = b.get(x)
    for _ in range(r.randint(0, 2)):
        m = r.random()
        if m < 0.35:
            t = b.P(r.choice(["Add", "Multiply", "Subtract"]), t, r.choice([1, 2, -1, 0.5]))
        elif m < 0.5:
            t = b.P("Mod", t, r.choice([2, 3]))
        elif m < 0.65:
            t = b.P(r.choice(CMP), t, r.choice(pool))
        elif m < 0.75:
            t = b.P("Not", t)
        elif m < 0.9:
            t = b.P(r.choice(["Add", "Max", "Less", "And"]), t, b.get(y))
        else:
            t = b.P("If", t, b.c(r.choice(pool)), b.c(r.choice(pool)))
    w = b.t("w")
    if r.random() < 0.5:
        j.statements.append(b.set(b.at(w), t))
        t = b.get(w)
        j.statements.append(b.set(b.at(21, 2), b.get(w)))
    j.test = t
    end = b.block(b.set(b.at(21, 0), b.get(x)), b.set(b.at(21, 1), b.P("Add", b.get(y), b.get(v))))
    cases = sorted({r.choice(pool + [0, 1, 2, 3, -1, 0.5]) for _ in range(r.randint(1, 5))} - {math.nan, math.inf}, key=lambda c: r.random())
    cases = [c for c in cases if c == c and abs(c) != math.inf]
    for i, c in enumerate(cases):
        a = b.block(b.set(b.at(21, 3), b.c(i)), *([b.set(b.at(x), b.c(r.choice(pool)))] if r.random() < 0.3 else []))
        if r.random() < 0.85:
            a.connect_to(end)
        j.connect_to(a if r.random() < 0.9 else end, c)
    if r.random() < 0.65 or not cases:
        d = b.block(b.set(b.at(21, 4), b.c(5)))
        d.connect_to(end)
        j.connect_to(d, None)
    ms = [{(20, 0): r.choice(VALS), (20, 1): float(q % (n + 1))} for q in range(2 * n + 2)]
    return pipe.Spec(e, ms, [20, 21], label=f"sets {ks} {cases}", special=True)


def t_cse(k):
    """equal expressions in dominating, dominated and unrelated blocks, around writes, draws and calls"""
    r = random.Random(k * 73 + 1)
    b = pipe.Build()
    vs = _leafs(b)
    base = [expr(b, r, vs, 2) for _ in range(2)]
    uniq = itertools.count(1)

    def same():
        m = r.random()
        if m < 0.6:
            return r.choice(base)
        if m < 0.7:
            return b.get(20, r.randrange(4, 7))
        if m < 0.78:
            return b.I("StackGet", r.randrange(2))
        if m < 0.84:
            return b.I("Random", 0, next(uniq))
        if m < 0.92:
            return b.P("BeatToTime", b.get(r.choice(vs)))
        return b.get(20, b.P("If", b.P("Less", b.get(vs[0]), 0), 4, 5))

    def stmts():
        st = []
        for _ in range(r.randint(1, 4)):
            m = r.random()
            if m < 0.5:
                st.append(b.set(b.at(21, r.randrange(6)), same()))
            elif m < 0.62:
                st.append(b.set(b.at(20, r.randrange(4, 7)), same()))
            elif m < 0.7:
                st.append(b.I("Spawn", r.randrange(3), same()))
            elif m < 0.78:
                st.append(b.I("StackPush", same()))
            else:
                st.append(b.set(b.at(r.choice(vs)), same()))
        return st

    n = r.randint(2, 5)
    bs = [b.block(*(_prolog(b, vs) if i == 0 else []), *stmts()) for i in range(n)]
    end = b.block(*stmts(), b.set(b.at(21, 7), b.get(vs[0])), b.set(b.at(21, 8), b.get(vs[1])))
    for i, q in enumerate(bs):
        nxt = bs[i + 1:] + [end]
        q.test = same() if r.random() < 0.5 else b.P("Less", same(), r.choice([0, 1, 2]))
        q.connect_to(r.choice(nxt), 0)
        q.connect_to(r.choice(nxt), None)
    return pipe.Spec(bs[0], [dict({(20, i): r.choice(VALS) for i in range(8)}) for _ in range(10)], [20, 21], label="repeated", special=True)


T = {"rule": t_rule, "expr": t_expr, "sets": t_sets, "cse": t_cse}


def tasks(tier, seed):
    q = tier == "quick"
    ts = []
    nr = 0
    for i in range(8):
        ts.append(Task("real", "run", "rule", i, 8, 60 if q else 400, 3.0, timeout=700))
    for kind, m, s in (("expr", 6, 25), ("sets", 4, 25), ("cse", 4, 20)):
        for i in range(m):
            ts.append(Task("real", "run", kind, seed * 100000 + i, m, s if q else 250, 1.5, timeout=700))
            ts.append(Task("real", "conc", kind, seed * 100000 + 50000000 + i, m, 9 if q else 120, timeout=700))
    return ts


def run(kind, lo, step, secs, budget):
    n = 10**6 if kind != "rule" else (len(rules()) // 4 + 1 - lo + step - 1) // step
    return pipe.run_templates(None, kind, T[kind], lo, n, secs, levels=("standard",), step=step, budget=budget)


def conc(kind, lo, step, secs):
    return pipe.run_templates(None, kind, T[kind], lo, 10**6, secs, levels=(), step=step)


def replay(o):
    return pipe.replay_templates(o, T)
