"""C08: rewriting switches keeps every value going to the same case.

For each instance (switches and chains of comparisons over many case sets) the obligation is: for every
real test value the emitted tree performs the effects of the same case as the graph.  Contract of
_dense_offset_stride/_offset_stride: a result (o, s) maps the cases one-to-one onto distinct non-negative
integers, the dense form onto a range of at most twice their number."""
from vp.check import Task
from vp.checks import pipe
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["midend._run_rewrite_switch", "lower._normalize_switch", "lower._dense_offset_stride", "lower._offset_stride", "lower._gcd",
                  "emit._switch_node", "emit._terminator_node"],
    "trusted": ["z3 (linear and mixed integer/real arithmetic)", "vp/exe.py, vp/rtspec.py: semantics of graphs and trees"],
    "assumptions": ["the test value is a mathematical real in the proofs; NaN, infinities and values beyond 2^53 by concrete runs",
                    "case sets are instances (directed and random), each proved for every test value",
                    "a double within 1e-9 of a case without being equal is excluded from the concrete runs (known finding switch-offset-rounding)"],
    "rule": "switches and comparison chains with 1-9 cases (dense, strided, negative, fractional, huge, duplicate targets, interleaved effects), run on each case value, neighbours, halves, NaN and infinities; non-trivial when a reference run exists",
    "deadline": {"quick": 300, "thorough": 850},
    "technique": "symbolic execution of graph and emitted tree over an arbitrary real test value, equality discharged by z3 per path; contract of the renumbering functions",
    "level_note": "proved for every test value per case set; case sets sampled",
}

TESTS = [math.nan, math.inf, -math.inf, 1e300, -1e300, 2.0**53, 2.0**24, 2.0**24 + 1, 0.5, -0.5, 0.0, 1, -1, 2, 3, 1e-3, 65536, -65536]


def cases_for(r):
    k = r.random()
    n = r.randint(1, 9)
    if k < 0.25:
        o = r.choice([0, 1, -3, 5, 100, -1000, 16777210])
        s = r.choice([1, 1, 2, 3, 5, -1, 7, 100])
        cs = [o + i * s for i in range(n)]
        if r.random() < 0.4 and n > 2:
            cs.pop(r.randrange(1, n))
    elif k < 0.4:
        cs = [r.randint(-12, 12) for _ in range(n)]
    elif k < 0.5:
        cs = [r.choice([0.5, 1.5, 2.5, 0.25, 1, 2, -0.5, 0.1, 3]) for _ in range(n)]
    elif k < 0.6:
        s = r.choice([0.5, 0.25, 1.5])
        cs = [s * r.randint(-6, 8) for _ in range(n)]
    elif k < 0.7:
        cs = [r.choice([0, 1, 2, 16777215, 16777216, 16777217, -16777216, 2**31, 2**40, 2**53, 1e300, -1e300, 3]) for _ in range(n)]
    elif k < 0.85:
        cs = [r.choice([0, 1, 2, 3, 4, 5, 6, 7]) for _ in range(n)]
    else:
        cs = [i * r.choice([2, 4, 10, 60]) + r.choice([0, 0, 0, 1, 0.5]) for i in range(n)]
    out = []
    for c in cs:
        if c not in out:
            out.append(c)
    r.shuffle(out)
    return out


def mems_for(cs, r, loc=(20, 0), n=26):
    vs = list(cs) + TESTS + [c + d for c in cs for d in (0.5, -0.5, 1, -1, 0.25)]
    if cs:
        lo, hi = min(cs), max(cs)
        vs += [lo - 1, hi + 1, hi + 2, (lo + hi) / 2, 2 * lo - hi, lo * 2, -lo, hi - 0.5]
    r.shuffle(vs)
    vs = list(cs) + vs[:n]
    return [{loc: float(v), (20, 1): float(r.choice([0, 1, 2, 5, 2.5]))} for v in vs]


def tests_expr(b, r, v):
    """the tested expression (over the temp v), with its source cell"""
    k = r.random()
    if k < 0.55:
        return b.get(v)
    if k < 0.7:
        return b.P("Add", b.get(v), r.choice([1, -2, 0.5]))
    if k < 0.8:
        return b.P("Subtract", r.choice([3, 0]), b.get(v))
    if k < 0.9:
        return b.P("Multiply", b.get(v), r.choice([2, 3, -1, 0.5]))
    return b.P("Floor", b.get(v))


def t_switch(seed):
    r = random.Random(seed * 31 + 7)
    b = pipe.Build()
    cs = cases_for(r)
    v = b.t("v")
    exitb = b.block(b.set(b.at(21, 0), b.c(99)))
    targets = []
    for i in range(r.randint(1, len(cs) + 1)):
        t = b.block(b.set(b.at(21, 1), b.c(10 + i)))
        if r.random() < 0.5:
            t.connect_to(exitb)
        targets.append(t)
    direct = r.random() < 0.3
    test = b.get(20, 0) if direct else tests_expr(b, r, v)
    e = b.block(*([] if direct else [b.set(b.at(v), b.get(20, 0))]), test=test)
    shared = r.random() < 0.5
    for i, c in enumerate(cs):
        e.connect_to(r.choice(targets) if shared else targets[i % len(targets)], c)
    if r.random() < 0.75:
        k = r.random()
        if k < 0.4:
            e.connect_to(targets[r.randrange(len(targets))], None)
        elif k < 0.7:
            e.connect_to(exitb, None)
        else:
            # the default tests again
            cs2 = cases_for(r)
            e2 = b.block(test=b.get(20, 0) if direct else b.get(v))
            for c in cs2:
                e2.connect_to(r.choice(targets), c)
            e2.connect_to(exitb, None)
            e.connect_to(e2, None)
            cs = cs + cs2
    return pipe.Spec(e, mems_for(cs, r), [20, 21], label=f"cases {cs}", real=True)


def t_chain(seed):
    """if / elif chains of (in)equality tests against constants"""
    r = random.Random(seed * 37 + 5)
    b = pipe.Build()
    cs = cases_for(r)
    if r.random() < 0.3:
        cs = cs + [r.choice(cs)]            # repeated: the first one wins
    v, u = b.t("v"), b.t("u")
    exitb = b.block(b.set(b.at(21, 0), b.c(99)))
    e = cur = b.block(b.set(b.at(v), b.get(20, 0)), b.set(b.at(u), b.get(20, 1)))
    which = lambda: b.get(v) if r.random() < 0.93 else b.get(u)
    tg = []
    for i, c in enumerate(cs):
        t = b.block(b.set(b.at(21, 1), b.c(10 + i)))
        if r.random() < 0.6:
            t.connect_to(exitb)
        if tg and r.random() < 0.25:
            t = r.choice(tg)
        tg.append(t)
        x, y = which(), b.c(c)
        if r.random() < 0.4:
            x, y = y, x
        k = r.random()
        op, neg = ("Equal", False) if k < 0.75 else ("NotEqual", True)
        test = b.P(op, x, y)
        if r.random() < 0.15:
            test, neg = b.P("Not", test), not neg
        if r.random() < 0.12:
            cur.statements.append(r.choice([b.set(b.at(21, 2), b.c(i)), b.set(b.at(v), b.P("Add", b.get(v), 1)), b.I("DebugLog", i)]))
        cur.test = test
        nx = b.block()
        if r.random() < 0.5:
            cur.connect_to(t, 0 if neg else None)
            cur.connect_to(nx, None if neg else 0)
        else:
            cur.connect_to(t, 0 if neg else 1)
            cur.connect_to(nx, None if neg else None)
        if r.random() < 0.05 and i:
            nx = cur        # a self loop is never taken twice with the same value: stop instead
            nx = b.block()
            cur.outgoing.clear() if False else None
        cur = nx
    cur.statements.append(b.set(b.at(21, 3), b.c(77)))
    if r.random() < 0.5:
        cur.connect_to(exitb)
    return pipe.Spec(e, mems_for(cs, r), [20, 21], label=f"chain {cs}", real=True)


def t_phi(seed):
    """a switch whose arms only pick a value"""
    r = random.Random(seed * 41 + 3)
    b = pipe.Build()
    cs = cases_for(r)
    v, x = b.t("v"), b.t("x")
    j = b.block(b.set(b.at(21, 0), b.get(x)), b.set(b.at(21, 1), b.P("Add", b.get(x), b.get(v))))
    e = b.block(b.set(b.at(v), b.get(20, 0)), b.set(b.at(x), b.c(5)), test=tests_expr(b, r, v))
    for i, c in enumerate(cs):
        a = b.block(b.set(b.at(x), r.choice([b.c(10 + i), b.P("Add", b.get(v), i), b.get(20, 1)])))
        a.connect_to(j)
        e.connect_to(a if r.random() < 0.85 else j, c)
    if r.random() < 0.7:
        e.connect_to(j, None)
    return pipe.Spec(e, mems_for(cs, r), [20, 21], label=f"select {cs}", real=True)


T = {"switch": t_switch, "chain": t_chain, "select": t_phi}


def tasks(tier, seed):
    q = tier == "quick"
    ts = [Task("real", "stride", seed, 4000 if q else 60000, timeout=200), Task("real", "witness", timeout=60), Task("real", "stride_small", timeout=200)]
    for kind in T:
        for i in range(5):
            ts.append(Task("real", "run", kind, seed * 100000 + i, 26 if q else 220, timeout=600))
    return ts


def run(kind, lo, secs):
    return pipe.run_templates(None, kind, T[kind], lo, 10**6, secs, levels=("standard", "minimal") if kind != "chain" else ("standard",), step=5)


def replay(o):
    return pipe.replay_templates(o, T)


def _fns(lower):
    return [f for n in ("_dense_offset_stride", "_offset_stride") if (f := getattr(lower, n, None)) is not None]


def _mapping(cases, res):
    """what is wrong with (offset, stride) as a renumbering of the cases"""
    if res is None:
        return None
    o, s = res[0], res[1]
    span = res[2] if len(res) > 2 else None
    if not s:
        return "stride 0"
    idx = []
    for c in cases:
        if c is None:
            continue
        from fractions import Fraction
        i = (Fraction(c) - Fraction(o)) / Fraction(s)
        if i.denominator != 1 or i < 0:
            return f"case {c} maps to {i}"
        idx.append(int(i))
    if len(set(idx)) != len(set(c for c in cases if c is not None)):
        return "two cases map to one index"
    if span is not None and idx and max(idx) + 1 != span:
        return f"span {span}, the largest index is {max(idx)}"
    if max(map(abs, cases)) > 2**53 or abs(o) > 2**53:
        return "a case is not exactly representable"
    return None


def stride(seed, n):
    from sonolus.backend._opt import lower
    r = random.Random(seed)
    viol, nt = [], set()
    for k in range(n):
        cs = cases_for(r)
        cs = sorted(float(c) for c in cs)
        for f in _fns(lower):
            try:
                res = f(list(cs))
            except Exception as e:  # noqa: BLE001
                viol.append({"key": f"stride:{f.__name__}", "what": f"{f.__name__}({cs}) raises {e!r}", "input": cs})
                continue
            w = _mapping(cs, res)
            nt.add(tuple(cs)) if res else None
            if w:
                viol.append({"key": f"stride:{f.__name__}", "what": f"{f.__name__}({cs}) = {res}: {w}", "input": cs})
    return {"violations": viol[:4], "bounded": {"name": "renumbering contract", "evaluations": 2 * n, "distinct": len(nt), "samples": [str(x) for x in list(nt)[:2]],
                                                "bound": f"{n} random case lists"}}


def stride_small():
    import itertools
    from sonolus.backend._opt import lower
    viol, ev = [], 0
    for n in (1, 2, 3, 4):
        for cs in itertools.combinations(range(-5, 8), n):
            for f in _fns(lower):
                ev += 1
                w = _mapping(cs, f([float(c) for c in cs]))
                if w:
                    viol.append({"key": f"stride:{f.__name__}", "what": f"{f.__name__}({cs}): {w}", "input": cs})
    return {"violations": viol[:4], "bounded": {"name": "renumbering contract, all small case sets", "evaluations": ev, "distinct": ev, "samples": [],
                                                "bound": "all sets of up to 4 integers in -5..7"}}


def witness():
    """the known finding: (x - offset) / stride rounds"""
    from vp import exe
    from vp.checks import pipe as P
    b = P.Build()
    e = b.block(test=b.get(20, 0))
    for c, k in ((-1, 1), (0, 2), (1, 3)):
        t = b.block(b.set(b.at(21, 0), b.c(k)))
        e.connect_to(t, c)
    e.connect_to(b.block(b.set(b.at(21, 0), b.c(9))), None)
    viol = []
    node, err = P.compile_at(e, "standard")
    w, _ = exe.NodeRun(node).run({(20, 0): 1e-300}, 1000)
    if w.log != [("w", 21, 0, 9.0)]:
        viol.append({"key": "switch-offset-rounding", "what": f"x = 1e-300 with cases -1, 0, 1 executes {w.log} instead of the default", "input": 1e-300})
    return {"violations": viol, "bounded": {"name": "known finding witness", "evaluations": 1, "distinct": 1, "samples": [], "bound": "one input"}}
