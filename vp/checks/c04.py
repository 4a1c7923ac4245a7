"""C04: emitted node trees execute the graph they were emitted from.

Contracts
  _Emitter._emit_numeric(v)      ensures  the leaf or read-only slot emitted has exactly the value v, for every double v
  emit_cfg(graph)                ensures  for every memory (so every test value) the tree performs the graph's statements
                                          in order and continues with the selected successor
The second is discharged per graph: sets of up to four cases over nine labels with shared, missing and exit targets, every place form,
expression and statement shapes, with the test value and all memory symbolic."""
import itertools

from vp.check import Task
from vp.checks import pipe
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["emit._Emitter._emit_numeric", "emit._Emitter._terminator_node", "emit._Emitter._switch_node", "emit._Emitter._compute_block_map",
                  "emit._Emitter._shifted_components", "emit._Emitter._place_components", "emit._Emitter._flatten_left_spine", "emit._Emitter._intern_fn",
                  "emit._cond_is_integral", "emit.emit_cfg", "ir.Func._marshal (no passes)", "context.ReadOnlyMemory (first three slots)"],
    "trusted": ["z3", "vp/exe.py, vp/rtspec.py: semantics of graphs and trees"],
    "assumptions": ["per graph the obligation covers every memory and test value; graphs are enumerated by shape",
                    "-0.0 is emitted as 0 (the sign of zero is not observable)"],
    "rule": "switch shapes (all case sets up to four of nine labels, with shared, missing and exit targets), place forms, statement orders, constants; non-trivial when a reference run exists",
    "deadline": {"quick": 300, "thorough": 850},
    "technique": "contract of the literal emission for every double; symbolic execution of graph and emitted tree per terminator and place shape, discharged by z3",
    "level_note": "every test value and memory proved per shape; larger graphs only sampled",
}
LABELS = [0, 1, 2, 3, -1, 0.5, 5, 1e300, 16777217]
TESTS = [0.0, 1.0, 2.0, 3.0, -1.0, 0.5, 5.0, 1e300, 16777217.0, -0.5, 1.5, 4.0, 16777216.0, math.nan, math.inf, -math.inf, 2.0**53, -3.0, 0.9999999, 2.9999999]


def shapes():
    out = []
    for n in range(5):
        for cs in itertools.combinations(LABELS, n):
            for dflt in (None, "own", "share", "exit"):
                out.append((cs, dflt))
    # the sizes interleaved, so that a run out of time has covered all of them in part
    random.Random(7).shuffle(out)
    return out


def t_term(k):
    cs, dflt = shapes()[k]
    r = random.Random(k)
    b = pipe.Build()
    end = b.block()
    kind = r.random()
    ends = [end]
    e = b.block(b.set(b.at(21, 9), b.get(20, 1)), test=b.get(20, 0) if r.random() < 0.7 else b.P("Add", b.get(20, 0), b.get(20, 1)))
    ts = []
    order = list(cs)
    r.shuffle(order)
    for i, c in enumerate(order):
        if ts and r.random() < 0.25:
            t = r.choice(ts)
        elif r.random() < 0.15:
            t = end
        else:
            t = b.block(b.set(b.at(21, 0), b.c(i + 1)), b.set(b.at(21, 1), b.get(20, 0)))
            if r.random() < 0.7:
                t.connect_to(end)
        ts.append(t)
        e.connect_to(t, c if r.random() < 0.8 else float(c))
    if dflt == "own":
        t = b.block(b.set(b.at(21, 0), b.c(77)))
        if kind < 0.5:
            t.connect_to(end)
        e.connect_to(t, None)
    elif dflt == "share":
        e.connect_to(r.choice(ts) if ts else end, None)
    elif dflt == "exit":
        e.connect_to(end, None)
    if kind > 0.8:
        end.statements.append(b.set(b.at(21, 5), b.c(1)))
    return pipe.Spec(e, [{(20, 0): t, (20, 1): 0.0} for t in TESTS], [20, 21], label=f"switch {cs} default {dflt}", special=True)


PLACES = None


def places():
    """index forms x offsets x block kinds x use"""
    global PLACES
    if PLACES is None:
        ix = ["k0", "k3", "v", "mulk", "mulv", "add", "add3", "mul3", "addmul", "muladd", "sub", "get", "neg"]
        PLACES = list(itertools.product(ix, [0, 1, 4], ["real", "dyn"], ["get", "set", "both", "rmw", "twice"]))
        random.Random(7).shuffle(PLACES)
    return PLACES


def t_place(k):
    form, off, blk, use = places()[k]
    b = pipe.Build()
    # indices from small integers kept in block 22
    i, j = b.get(22, 0), b.get(22, 1)
    ix = {"k0": lambda: 0, "k3": lambda: 3, "v": lambda: i, "mulk": lambda: b.P("Multiply", i, 2), "mulv": lambda: b.P("Multiply", i, j),
          "add": lambda: b.P("Add", i, j), "add3": lambda: b.P("Add", i, j, 1), "mul3": lambda: b.P("Multiply", i, j, 1),
          "addmul": lambda: b.P("Add", b.P("Multiply", i, 2), j), "muladd": lambda: b.P("Multiply", b.P("Add", i, 1), j), "sub": lambda: b.P("Subtract", i, j),
          "get": lambda: b.get(22, 1), "neg": lambda: b.P("Negate", i)}[form]
    bl = {"real": lambda: 20, "dyn": lambda: b.get(22, 2)}[blk]

    def p(o=off):
        x = bl()
        return b.at(x, ix(), o)
    g = lambda o=off: b.ir.IRGet(p(o))
    v = b.get(23, 0)
    st = {"get": lambda: [b.set(b.at(21, 0), g())], "set": lambda: [b.set(p(), v)],
          "both": lambda: [b.set(b.at(21, 0), g()), b.set(p(), b.P("Add", v, g())), b.set(b.at(21, 1), g())],
          "rmw": lambda: [b.set(p(), b.P("Subtract", g(), v)), b.set(p(), b.P("Add", g(), 1))],
          "twice": lambda: [b.set(p(), v), b.set(p(off + 1), g()), b.set(b.at(21, 0), b.P("Subtract", g(), g(off + 1)))]}[use]()
    r = random.Random(k)
    ms = []
    for _ in range(8):
        m = {(20, q): float(r.randint(-9, 9)) for q in range(20)}
        m.update({(22, 0): float(r.randint(0, 3)), (22, 1): float(r.randint(0, 3)), (22, 2): float(r.choice([20, 21])), (23, 0): draw(r)})
        ms.append(m)

    def pre(c):
        import z3
        from vp.sym import FP, fpv
        for nm, vs in (("m22_0", (0, 1, 2)), ("m22_1", (0, 1, 2)), ("m22_2", (20, 21))):
            x = FP.var(nm)
            c.assume(z3.Or(*[x.t == fpv(float(q)) for q in vs]))
    return pipe.Spec(b.block(*st), ms, [20, 21, 22, 23], label=f"place {form} +{off} {blk} {use}", pre=pre, steps=8)


def t_stmt(k):
    """expression shapes, statement orders, draws and calls, shared subtrees, chains and joins of blocks"""
    r = random.Random(k * 31 + 7)
    b = pipe.Build()
    vs = [b.get(20, q) for q in range(4)]
    pool = []

    def ex(d):
        if pool and r.random() < 0.25:
            return r.choice(pool)
        m = r.random()
        if d == 0 or m < 0.15:
            return r.choice(vs) if r.random() < 0.7 else b.c(r.choice([0, 1, 2, -1, 0.5, 1e300, 3, math.inf, math.nan, -math.inf, 16777217, 0.1]))
        if m < 0.6:
            op = r.choice(["Add", "Multiply", "Subtract", "Divide", "Mod", "Rem", "Add", "Mod"])
            n = 2 if r.random() < 0.6 else r.randint(3, 4)
            e = b.P(op, *[ex(d - 1) for _ in range(n)])
        elif m < 0.8:
            e = b.P(r.choice(["Less", "Equal", "Max", "Min", "GreaterOr", "NotEqual"]), ex(d - 1), ex(d - 1))
        elif m < 0.87:
            e = b.P("If", ex(d - 1), ex(d - 1), ex(d - 1))
        elif m < 0.94:
            e = b.P(r.choice(["Negate", "Abs", "Floor", "Not", "Trunc"]), ex(d - 1))
        else:
            e = b.P(r.choice(["And", "Or"]), *[b.P("Less", ex(d - 1), ex(0)) for _ in range(r.randint(2, 3))])
        pool.append(e)
        return e

    def stmt():
        m = r.random()
        if m < 0.6:
            return b.set(b.at(r.choice([20, 21]), r.randrange(4)), ex(2))
        if m < 0.75:
            return b.I("Spawn", r.randrange(3), ex(2))
        if m < 0.85:
            return b.I("StackPush", ex(1))
        return b.set(b.at(21, r.randrange(4)), b.I(r.choice(["Spawn", "StackGet"]), *([1, ex(1)] if r.random() < 2 else [])) if r.random() < 0.5 else b.I("StackGet", r.randrange(2)))

    n = r.randint(1, 6)
    bs = [b.block(*[stmt() for _ in range(r.randint(0, 4))]) for _ in range(n)]
    for i, q in enumerate(bs):
        q.test = ex(1)
        nxt = [x for x in bs[i + 1:]] or [None]
        for c in r.sample([0, 1, 2, 3, None, None, 0.5, -1], r.randint(0, 4)):
            if c is None and any(e.cond is None for e in q.outgoing):
                continue
            t = r.choice(nxt)
            if t is not None:
                q.connect_to(t, c)
    return pipe.Spec(bs[0], [{(20, q): r.choice([0.0, 1.0, 2.0, 3.0, -1.0, 0.5, math.nan, math.inf, draw(r)]) for q in range(4)} for _ in range(10)],
                     [20, 21], label="statements", special=True)


T = {"term": t_term, "place": t_place, "stmt": t_stmt}
EMIT = ("emit", "minimal", "passes-minimal")


def tasks(tier, seed):
    q = tier == "quick"
    ts = [Task("sym", "numeric", timeout=200), Task("real", "rom"), Task("real", "literals", seed, 20000 if q else 500000, timeout=500)]
    ts += [Task("real", "run", "term", i, 8, 40 if q else 400, timeout=700) for i in range(8)]
    ts += [Task("real", "run", "place", i, 8, 40 if q else 400, timeout=700) for i in range(8)]
    ts += [Task("real", "run", "stmt", seed * 100000 + i, 3, 25 if q else 300, timeout=700) for i in range(3)]
    ts += [Task("real", "conc", "stmt", seed * 100000 + 50000000 + i, 3, 15 if q else 200, timeout=700) for i in range(3)]
    ts += [Task("real", "sweep", seed * 7000003 + i, 15 if q else 200, timeout=700) for i in range(3)]
    return ts


def run(kind, lo, step, secs):
    n = {"term": len(shapes()), "place": len(places())}.get(kind)
    n = 10**6 if n is None else (n - lo + step - 1) // step
    return pipe.run_templates(None, kind, T[kind], lo, n, secs, levels=("emit",), step=step, budget=3.0, conc_levels=EMIT)


def conc(kind, lo, step, secs):
    return pipe.run_templates(None, kind, T[kind], lo, 10**6, secs, levels=(), step=step, conc_levels=EMIT)


def sweep(lo, secs):
    return pipe.random_sweep("C04", lo, secs, levels=("minimal", "passes-minimal", "passes-standard"))


def numeric():
    """the literal emitted for v has the value v, for every double"""
    from vp.sym import FP, Ctx
    from sonolus.backend._opt import emit
    from sonolus.backend._opt.ir import Func
    import z3
    c = Ctx("emit_numeric", budget_s=60)

    class E(emit._Emitter):
        def _int_leaf(self, v):
            return ("int", v)

        def _float_leaf(self, v):
            return ("float", v)

        def _rom_read(self, k):
            return ("rom", k)

    def body():
        v = FP.var("v")
        kind, x = E(Func())._emit_numeric(v)
        c.cover(kind)
        if kind == "rom":
            k = int(x)
            c.prove(f"rom{k}", {0: z3.fpIsNaN(v.t), 1: z3.And(z3.fpIsInf(v.t), z3.Not(z3.fpIsNegative(v.t))), 2: z3.And(z3.fpIsInf(v.t), z3.fpIsNegative(v.t))}.get(k, z3.BoolVal(False)))
        else:
            from vp.sym import lift_fp
            t = lift_fp(x).t
            c.prove(kind + ":value", z3.fpEQ(t, v.t))
            c.prove(kind + ":finite", z3.Not(z3.Or(z3.fpIsNaN(t), z3.fpIsInf(t))))
            if kind == "int":
                c.prove("int:integral", z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), v.t), v.t))
    from vp.sym import s_int
    emit.int = s_int
    c.run(body)
    emit.int = int
    # interning keeps the number and its type, whatever was interned before
    d = Ctx("leaf")
    vs = [0, 1, -1, 5, 2**53, 10**18, 0.5, 1.5, -2.25, 0.1, 5e-324, 1e-300, 1.7976931348623157e308, 12345678.9]

    def leafs():
        import itertools as it
        ok = True
        for a, b in it.permutations(vs, 2):
            e = emit._Emitter(Func())
            for q in (a, b, a):
                g = e._emit_numeric(float(q))
                ok &= g == q and type(g) is (int if float(q).is_integer() else float)
            x, y = e._rom_read(1), e._rom_read(2)
            ok &= x != y and x.args == (3000, 1) and y.args == (3000, 2)
        d.prove("interned", bool(ok))
    d.run(leafs)
    from vp.checks.common import merge, pack
    return merge(pack(c), pack(d))


def rom():
    """the reserved slots hold what the emitted reads expect, and no other data may take them"""
    from sonolus.build.engine import package_rom
    from sonolus.script.internal.context import ReadOnlyMemory
    import gzip
    import struct
    bad = []
    for data in ([], [(1.0, 2.0)], [(0.5,), (1.0, 2.0, 3.0), (0.5,)]):
        m = ReadOnlyMemory()
        ps = [(d, m[d]) for d in data]
        raw = gzip.decompress(package_rom(m))
        vals = struct.unpack(f"<{len(raw) // 4}f", raw)
        if not (vals[0] != vals[0] and vals[1] == math.inf and vals[2] == -math.inf):
            bad.append({"key": "rom", "what": f"the read-only memory starts with {vals[:3]}", "input": data})
        for d, p in ps:
            if tuple(vals[p.index + p.offset:][:len(d)]) != d:
                bad.append({"key": "rom:data", "what": f"{d} is not at its place", "input": data})
    return {"violations": bad, "bounded": {"name": "read-only memory", "evaluations": 3, "distinct": 3, "samples": ["nan, inf, -inf first"], "bound": "three contents"}}


def literals(seed, n):
    """constants through the compiled pipeline at every level: written unchanged"""
    from sonolus.backend.optimize import cfg_to_engine_node  # noqa: F401
    r = random.Random(seed)
    bad = []
    done = 0
    from vp import exe
    while done < n and not bad:
        b = pipe.Build()
        ks = [draw(r) for _ in range(30)] + [r.choice([math.nan, math.inf, -math.inf, 0.0, float(r.randint(-2**53, 2**53)), r.randint(-100, 100), 2.0**r.randint(-1074, 1023)])]
        e = b.block(*[b.set(b.at(21, i), b.c(v)) for i, v in enumerate(ks)])
        rs = pipe.refs(e, [{}])
        exp = [("w", 21, i, exe._nk(v)) for i, v in enumerate(ks)]
        if [tuple(x) for x in rs[0][1].log] != exp:
            d = exe.difference(exp, rs[0][1].log)
            if d:
                bad.append({"key": "literal", "what": f"graph constants: {d}", "input": [repr(k) for k in ks]})
        for lev, what in pipe.compare(e, rs, ("emit", "minimal", "standard")):
            bad.append({"key": f"literal:{lev}", "what": f"{what}", "input": [repr(k) for k in ks]})
        done += len(ks)
    return {"violations": bad, "bounded": {"name": "literals", "evaluations": done * 3, "distinct": done, "samples": ["special values and random bit patterns"], "bound": "sampled doubles"}}


def replay(o):
    if o["name"].startswith("emit_numeric"):
        from vp.checks.common import unmodel
        v = unmodel(o.get("model") or {}).get("v")
        if v is None:
            return {}
        b = pipe.Build()
        e = b.block(b.set(b.at(21, 0), b.c(float(v))))
        bad = pipe.compare(e, pipe.refs(e, [{}]), ("emit",))
        return {"violations": [{"key": "literal:emit", "what": f"constant {v!r}: {bad[0][1]}", "input": repr(v)}]} if bad else {}
    return pipe.replay_templates(o, T)
