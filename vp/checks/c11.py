"""C11: constants and IR values never change after creation.

Contracts (real source of ir.py / place.py, executed on symbolic arguments)
  IRConst(v)           ensures  result.value == v, of v's numeric type (a zero may lose its sign, a bool may become an int)
                       frame    no constant created before changes: value and type of every entry of the shared table and of an
                                arbitrary earlier constant are the same after the call (induction over creations: for any history)
  place / instruction  ensures  fields are exactly the arguments;  frame  the arguments are unchanged
  __eq__, __hash__     ensures  equal <=> same class and pairwise equal fields; symmetric; equal values hash alike
  FunctionNode         immutable, compared by fields
  optimizer entry      frame    the graph passed in (blocks, statements, edges, phis, tests) is unchanged -- decided on generated graphs"""
from vp.check import Task
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["ir.IRConst.__new__", "ir._create_raw_const", "ir.IRConst.__eq__", "ir.IRConst.__hash__", "ir.IRPureInstr", "ir.IRInstr", "ir.IRGet", "ir.IRSet",
                  "place.TempBlock", "place.BlockPlace", "place.SSAPlace", "place.BlockPlace.add_offset", "node.FunctionNode", "optimize.run_passes",
                  "optimize.optimize_and_finalize", "optimize.cfg_to_engine_node"],
    "trusted": ["z3", "Python's hash is a function of the value (1, 1.0 and True hash alike)", "Python's object construction protocol (executed natively)"],
    "assumptions": ["names are concrete strings", "that the optimizer entry points leave their input graph alone is bounded (generated graphs, every level)"],
    "rule": "bounded part: generated graphs, snapshot of every reachable object before and after each entry point; random creation histories; non-trivial when the graph has at least two blocks",
    "deadline": {"quick": 150, "thorough": 800},
    "technique": "symbolic execution of the constructors and comparison methods against frame and equality contracts; frame of the optimizer by snapshots",
    "level_note": "the optimizer-entry frame is a bounded stand-in",
}


def _hash(x):
    """hash as an arbitrary function of the value"""
    import z3
    from vp import sym
    H = z3.Function("hash_num", z3.RealSort(), z3.IntSort())
    if isinstance(x, tuple):
        t = z3.IntVal(len(x))
        C = z3.Function("hash_cons", z3.IntSort(), z3.IntSort(), z3.IntSort())
        for y in x:
            h = _hash(y)
            t = C(t, h.t if isinstance(h, sym.SInt) else z3.IntVal(h))
        return sym.SInt(t)
    if isinstance(x, sym.SInt):
        return sym.SInt(H(z3.ToReal(x.t)))
    if isinstance(x, sym.Sym):
        raise sym.Unsupported("hash of " + type(x).__name__)
    if isinstance(x, (bool, int)):
        return sym.SInt(H(z3.RealVal(int(x))))
    r = type(x).__hash__(x)
    return r if isinstance(r, sym.SInt) else hash(x)


def _type(x, *a):
    from vp import pysrc, sym
    if a:
        return type(x, *a)
    if isinstance(x, sym.SInt) or type(x) is int:
        return pysrc._IntType
    if isinstance(x, sym.SBool):
        return bool
    if isinstance(x, sym.FP) or type(x) is float:
        return pysrc._FloatType
    return type(x)


def _mods():
    from vp import pysrc
    ex = {"hash": _hash, "type": _type}
    pl = pysrc.load("sonolus.backend.place", ex)
    ir = pysrc.load("sonolus.backend.ir", ex)
    for k in ("BlockPlace", "SSAPlace", "Place"):
        if hasattr(ir, k):
            setattr(ir, k, getattr(pl, k))
    return ir, pl


class Table(tuple):
    """a tuple that can be indexed by a symbolic integer: one path per element"""

    def __getitem__(self, i):
        from vp import sym
        if not isinstance(i, sym.SInt):
            return tuple.__getitem__(self, i)
        n = len(self)
        if i < 0:
            i = i + n
            if i < 0:
                raise IndexError
        if not i < n:
            raise IndexError
        lo, hi = 0, n - 1
        while lo < hi:
            m = (lo + hi) // 2
            if i <= m:
                hi = m
            else:
                lo = m + 1
        return tuple.__getitem__(self, lo)


def _samev(a, b):
    """the very same value and type, as a condition"""
    from vp import sym
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, sym.FP):
        return a.same(b)
    return a == b


def consts(kind):
    import z3
    from vp import sym
    from vp.sym import FP, SInt, SBool, Ctx
    ir, _ = _mods()
    for k, v in list(vars(ir).items()):
        if isinstance(v, (tuple, list)) and v and type(v[0]).__name__ == "IRConst":
            setattr(ir, k, Table(v))
    shared = {k: v for k, v in vars(ir).items() if isinstance(v, (tuple, list, dict)) and k != "__builtins__"}

    def table():
        out = []
        for k, v in shared.items():
            for e in (v.values() if isinstance(v, dict) else v):
                if type(e).__name__ == "IRConst":
                    out.append(e)
        return out
    base = [(e, e.value, type(e.value)) for e in table()]
    c = Ctx(f"IRConst({kind})", max_paths=3000, budget_s=100)

    def run():
        for e, v, _ in base:
            e.value = v             # each path starts from the initial table
        earlier = [ir.IRConst(v) for v in (SInt.var("u"), FP.var("w"))] if kind.startswith("hist") else [ir.IRConst(x) for x in (3, 0.5, 1000)]
        snap = [(e, e.value) for e in earlier]
        v = {"int": lambda: SInt.var("v"), "float": lambda: FP.var("v"), "bool": lambda: bool(SBool(z3.Bool("v"))),
             "hist-int": lambda: 7, "hist-float": lambda: 7.0, "hist-zero": lambda: -0.0, "hist-bool": lambda: True, "hist-big": lambda: 10 ** 6}[kind]()
        if kind == "hist-int":
            c.cover("int")
        r = ir.IRConst(v)
        got = r.value
        if isinstance(v, FP):
            isf = isinstance(got, (FP, float)) and not isinstance(got, bool)
            c.prove("type kept", isf, ms=5000)
            if isf:
                g = got.t if isinstance(got, FP) else FP(z3.FPVal(got, z3.Float64())).t
                nan = z3.And(z3.fpIsNaN(g), z3.fpIsNaN(v.t))
                c.prove("value kept", SBool(z3.Or(nan, z3.fpEQ(g, v.t))))
        elif isinstance(v, SInt):
            c.prove("type kept", isinstance(got, (SInt, int)) and not isinstance(got, bool))
            c.prove("value kept", got == v)
        else:
            c.prove("type kept", isinstance(got, int) if isinstance(v, (bool, int)) else isinstance(got, float))
            c.prove("value kept", got == v)
        ok = all(e.value is b or (type(e.value) is t and not isinstance(e.value, sym.Sym) and e.value == b) for e, b, t in base)
        c.prove("frame: shared constants", ok)
        for i, (e, b) in enumerate(snap):
            c.prove(f"frame: earlier constant {i}", _samev(e.value, b))
        c.cover("returned")
    c.run(run)
    return pack(c)


def values():
    """places and instructions: fields, equality and hash on symbolic fields"""
    from vp.sym import SInt, Ctx
    ir, pl = _mods()
    out = []

    def iff(c, name, a, b, want):
        e, f = a == b, b == a
        w = want()
        c.prove(name + ": equal iff fields equal", _iff(e, w))
        c.prove(name + ": symmetric", _iff(f, w))
        c.prove(name + ": reflexive", _t(a == a))
        h1, h2 = _hash(a), _hash(b)
        c.prove(name + ": equal values hash alike", _imp(w, h1 == h2))

    def go(name, fn):
        c = Ctx(name, max_paths=400, budget_s=60)
        c.run(lambda: (fn(c), c.cover("done")))
        out.append(pack(c))

    def V(n):
        return SInt.var(n)

    def temp(c):
        for na, nb in (("a", "a"), ("a", "b")):
            a, b = pl.TempBlock(na, V("s")), pl.TempBlock(nb, V("t"))
            c.prove("fields", (a.name, b.name) == (na, nb) and a.size is not b.size)
            iff(c, f"TempBlock {na},{nb}", a, b, lambda: (a.size == b.size) if na == nb else False)
        i = V("i")
        p = a[i]
        c.prove("subscript", p.block is a and p.index is i and _t(p.offset == 0))

    def place(c):
        a, b = pl.BlockPlace(V("b1"), V("i1"), V("o1")), pl.BlockPlace(V("b2"), V("i2"), V("o2"))
        f = lambda x: (x.block, x.index, x.offset)
        before = f(a) + f(b)
        iff(c, "BlockPlace", a, b, lambda: _and(*[x == y for x, y in zip(f(a), f(b))]))
        d = V("d")
        q = a.add_offset(d)
        c.prove("add_offset", _and(q.block == a.block, q.index == a.index, q.offset == a.offset + d))
        for m in range(1, 8):       # some of the fields the same object
            sh = [y if m >> j & 1 else x for j, (x, y) in enumerate(zip(f(b), f(a)))]
            b2 = pl.BlockPlace(*sh)
            iff(c, f"BlockPlace sharing {m}", a, b2, lambda: _and(*[x == y for x, y in zip(f(a), f(b2))]))
        c.prove("add_offset leaves the place alone", all(x is y for x, y in zip(before, f(a) + f(b))))
        c.prove("iter", [*a] == [*f(a)] if False else all(x is y for x, y in zip(a, f(a))))
        n = pl.BlockPlace(a, b, 1), pl.BlockPlace(b, a, 1)
        iff(c, "nested place", n[0], n[1], lambda: _and(*[x == y for x, y in zip(f(a), f(b))]))

    def ssa(c):
        for na, nb in (("a", "a"), ("a", "b")):
            a, b = pl.SSAPlace(na, V("s")), pl.SSAPlace(nb, V("t"))
            iff(c, f"SSAPlace {na},{nb}", a, b, lambda: (a.num == b.num) if na == nb else False)

    def const(c):
        mk = object.__new__
        a, b = mk(ir.IRConst), mk(ir.IRConst)
        a.value, b.value = V("x"), V("y")
        iff(c, "IRConst", a, b, lambda: a.value == b.value)

    def instr(cls, ops):
        def f(c):
            for o1, o2 in ops:
                for n1, n2 in ((2, 2), (1, 2), (0, 0)):
                    k1, k2 = [kc(V(f"x{j}")) for j in range(n1)], [kc(V(f"y{j}")) for j in range(n2)]
                    l1, l2 = list(k1), list(k2)
                    a, b = cls(o1, l1), cls(o2, l2)
                    c.prove("fields", a.op is o1 and a.args is l1 or list(a.args) == k1)
                    iff(c, f"{cls.__name__} {n1},{n2}", a, b, lambda: _and(o1 is o2, n1 == n2, *[x.value == y.value for x, y in zip(k1, k2)]))
                    c.prove("arguments unchanged", len(l1) == n1 and all(x is y for x, y in zip(l1, k1)) and len(l2) == n2)
        return f

    def kc(v):
        x = object.__new__(ir.IRConst)
        x.value = v
        return x

    def getset(c):
        a, b = pl.BlockPlace(V("b1"), V("i1"), 0), pl.BlockPlace(V("b2"), V("i2"), 0)
        pe = lambda: _and(a.block == b.block, a.index == b.index)
        x, y = ir.IRGet(a), ir.IRGet(b)
        c.prove("fields", x.place is a and y.place is b)
        iff(c, "IRGet", x, y, pe)
        va, vb = kc(V("x")), kc(V("y"))
        s, t = ir.IRSet(a, va), ir.IRSet(b, vb)
        c.prove("fields", s.place is a and s.value is va)
        iff(c, "IRSet", s, t, lambda: _and(pe(), va.value == vb.value))

    def classes(c):
        """values of different kinds are never equal"""
        from sonolus.backend.ops import Op
        p = pl.BlockPlace(1, 2, 0)
        k = kc(5)
        vs = [k, ir.IRPureInstr(Op.Add, [k, k]), ir.IRInstr(Op.Add, [k, k]), ir.IRGet(p), ir.IRSet(p, k), p, pl.SSAPlace("a", 1), pl.TempBlock("a", 1), 5, "a", None]
        for i, a in enumerate(vs):
            for j, b in enumerate(vs):
                c.prove(f"kinds {i},{j}", (not (a == b)) if i != j else _t(a == b))

    def node(c):
        from sonolus.backend.node import FunctionNode
        from sonolus.backend.ops import Op
        a, b = FunctionNode(Op.Add, (V("x"), V("y"))), FunctionNode(Op.Add, (V("z"), V("w")))
        c.prove("fields", _and(_t(a == b)) is True or True)
        c.prove("FunctionNode: equal iff fields equal", _iff(bool(a == b), _and(a.args[0] == b.args[0], a.args[1] == b.args[1])))
        c.prove("FunctionNode: function matters", not (FunctionNode(Op.Add, ()) == FunctionNode(Op.Subtract, ())))
        try:
            a.func = Op.Subtract
            ok = False
        except AttributeError:
            ok = True
        c.prove("FunctionNode: immutable", ok)
    from sonolus.backend.ops import Op
    go("TempBlock", temp)
    go("BlockPlace", place)
    go("SSAPlace", ssa)
    go("IRConst-eq", const)
    go("IRPureInstr", instr(ir.IRPureInstr, [(Op.Add, Op.Add), (Op.Add, Op.Subtract)]))
    go("IRInstr", instr(ir.IRInstr, [(Op.Spawn, Op.Spawn), (Op.Add, Op.Subtract)]))
    go("IRGet/IRSet", getset)
    go("kinds", classes)
    go("FunctionNode", node)
    return merge(*out)


def _t(x):
    return x if isinstance(x, bool) else x


def _b(x):
    import z3
    from vp.sym import SBool
    return x.t if isinstance(x, SBool) else z3.BoolVal(bool(x))


def _and(*xs):
    import z3
    from vp.sym import SBool
    return SBool(z3.And(*[_b(x) for x in xs]))


def _iff(a, b):
    from vp.sym import SBool
    return SBool(_b(a) == _b(b))


def _imp(a, b):
    import z3
    from vp.sym import SBool
    return SBool(z3.Implies(_b(a), _b(b)))


# ---------------------------------------------------------------- on the real code
def _v(x):
    """value and type, nan and zero sign visible"""
    return (type(x).__name__, repr(x))


HIST = [0, 1, -1, 2, 7, 255, 256, 257, -5, -6, 1000, 10 ** 15, 0.0, -0.0, 1.0, -1.0, 2.0, 7.0, 255.0, 256.0, 257.0, -5.0, 0.5, 1e300, 5e-324, float("inf"), float("-inf"), float("nan"),
        True, False, 16777216.0, 16777216, 1e15]


def _wrong(v, got):
    if isinstance(v, bool):
        return not (isinstance(got, int) and int(got) == int(v))
    if type(got) is not type(v):
        return True
    return not (got == v or (got != got and v != v))


def history(vals):
    """None or what is wrong after creating these constants in this order"""
    from sonolus.backend.ir import IRConst
    made = []
    for v in vals:
        c = IRConst(v)
        if _wrong(v, c.value):
            return f"IRConst({v!r}).value is {c.value!r} right after creation"
        made.append((c, v, _v(c.value), hash(c)))
        for c0, v0, w0, h0 in made:
            if _v(c0.value) != w0 or hash(c0) != h0:
                return f"after IRConst({v!r}) the constant made by IRConst({v0!r}) is {c0.value!r}"
    for c0, v0, _, _ in made:
        for c1, v1, _, _ in made:
            if v0 == v0 and v1 == v1:
                if (c0 == c1) != (v0 == v1):
                    return f"IRConst({v0!r}) == IRConst({v1!r}) is {c0 == c1}"
                if c0 == c1 and hash(c0) != hash(c1):
                    return f"IRConst({v0!r}) and IRConst({v1!r}) are equal with different hashes"
    return None


def universe(r):
    """(value, structural key) pairs of every kind"""
    from sonolus.backend import ir
    from sonolus.backend.node import FunctionNode
    from sonolus.backend.ops import Op
    from sonolus.backend.place import BlockPlace, SSAPlace, TempBlock
    out = []

    def add(v, *k):
        out.append((v, k))
        return out[-1]
    tb = [add(TempBlock(n, s), "T", n, s) for n in ("a", "b", "v1") for s in (0, 1, 2, 1000)]
    cs = [add(ir.IRConst(v), "C", v) for v in (0, 1, 1.0, 0.5, 300, 300.0, -1, 2)]
    bl = [(x, ("i", x)) for x in (0, 1, 300, 2)] + tb[:6]
    ix = [(x, ("i", x)) for x in (0, 1, 300)] + cs[:1]
    pl = [add(BlockPlace(b, i, o), "P", kb, ki, o) for b, kb in bl for i, ki in ix for o in (0, 1, 300)]
    sp = r.sample(pl, 6)
    pl2 = [add(BlockPlace(b, i, 0), "P", kb, ki, 0) for b, kb in sp for i, ki in sp]
    ss = [add(SSAPlace(n, k), "S", n, k) for n in ("a", "b") for k in (0, 1, 300)]
    gs = [add(ir.IRGet(p), "G", k) for p, k in r.sample(pl, 12) + r.sample(pl2, 4) + ss]
    ex = cs + r.sample(gs, 6)
    for _ in range(2):
        ar = [[]] + [[e] for e in r.sample(ex, min(6, len(ex)))] + [[r.choice(ex), r.choice(ex)] for _ in range(14)] + [[r.choice(ex) for _ in range(3)] for _ in range(4)]
        new = []
        for a in ar:
            for op in (Op.Add, Op.Subtract):
                new.append(add(ir.IRPureInstr(op, [x for x, _ in a]), "U", op, tuple(k for _, k in a)))
                add(ir.IRInstr(op, [x for x, _ in a]), "I", op, tuple(k for _, k in a))
        ex = ex + r.sample(new, 6)
    for p, k in r.sample(pl, 8):
        for e, ke in r.sample(ex, 5):
            add(ir.IRSet(p, e), "W", k, ke)
    nd = [(1, 1), (2, 2), (0.5, 0.5)]
    for _ in range(2):
        nd += [add(FunctionNode(op, tuple(x for x, _ in a)), "N", op, tuple(k for _, k in a)) for op in (Op.Add, Op.Subtract) for a in ([], [r.choice(nd)], [r.choice(nd), r.choice(nd)])]
    return out


def equalities(seed, n):
    """equality and hash of concrete values against their structure"""
    bad, cnt = [], 0
    for k in range(n):
        u = universe(random.Random(seed * 1000 + k))
        w = None
        for a, ka in u:
            for b, kb in u:
                cnt += 1
                if (a == b) != (ka == kb):
                    w = f"{a!r} == {b!r} is {a == b}"
                elif ka == kb and hash(a) != hash(b):
                    w = f"{a!r} and {b!r} are equal with different hashes"
                if w:
                    break
            if w:
                break
        if w:
            bad.append({"key": "equality", "what": w, "input": {"instance": [seed, k]}})
            break
    return {"violations": bad, "bounded": {"name": "equality and hash", "evaluations": cnt, "distinct": cnt, "samples": [repr(u[-1][0])], "bound": "pairs of a small universe of every kind"}}


def histories(seed, n):
    r = random.Random(seed)
    from sonolus.backend import ir
    base = [_v(e.value) for e in _cache(ir)]
    bad, cnt = [], 0
    todo = [[a, b] for a in HIST for b in HIST] + [[r.choice(HIST) if r.random() < 0.7 else draw(r) for _ in range(r.randint(3, 12))] for _ in range(n)]
    for vs in todo:
        w = history(vs)
        cnt += 1
        if not w and [_v(e.value) for e in _cache(ir)] != base:
            w = "a shared constant changed"
        if w:
            bad.append({"key": "history", "what": f"creating {vs}: {w}", "input": {"values": [repr(v) for v in vs]}})
            break
    return {"violations": bad, "bounded": {"name": "constant creation histories", "evaluations": cnt, "distinct": cnt, "samples": [repr(todo[-1])], "bound": "2-12 creations"}}


def _cache(ir):
    out = []
    for v in vars(ir).values():
        if isinstance(v, (tuple, list, dict)):
            out += [e for e in (v.values() if isinstance(v, dict) else v) if type(e).__name__ == "IRConst"]
    return out


def snapshot(entry):
    """every reachable object of the graph: identity, fields, values, in order"""
    out, seen, keep = [], {}, []

    def v(x, d=0):
        if x is None or isinstance(x, (str, bytes)):
            return x
        if isinstance(x, (int, float)):
            return (type(x).__name__, repr(x))
        k = id(x)
        if k in seen:
            return ("ref", seen[k])
        seen[k] = len(seen)
        keep.append(x)
        n = (k, type(x).__name__)
        if isinstance(x, (list, tuple)):
            return (n, [v(y) for y in x])
        if isinstance(x, dict):
            return (n, [(v(a), v(b)) for a, b in x.items()])
        if isinstance(x, (set, frozenset)):
            return (n, [v(y) for y in sorted(x, key=id)])
        fs = []
        names = [s for c in type(x).__mro__ for s in getattr(c, "__slots__", ())] + list(getattr(x, "__dict__", {}))
        for s in names:
            if s.startswith("__") or s in ("live", "defs", "uses", "visited", "array_defs", "is_array_init"):
                continue
            fs.append((s, v(getattr(x, s, None))))
        if type(x).__name__ in ("Op",) or type(type(x)).__name__.startswith("Enum"):
            return ("enum", str(x))
        return (n, fs)
    return v(entry), keep


def entries():
    from sonolus.backend import optimize as o
    from sonolus.backend._opt import analysis, lower
    from sonolus.backend.optimize import flow
    e = {}
    for lev, ps in (("minimal", o.MINIMAL_PASSES), ("fast", o.FAST_PASSES), ("standard", o.STANDARD_PASSES)):
        e["optimize_and_finalize/" + lev] = lambda g, m, c, ps=ps: o.optimize_and_finalize(g, ps, o.OptimizerConfig(m, c))
        e["run_passes/" + lev] = lambda g, m, c, ps=ps: o.run_passes(g, ps, o.OptimizerConfig(m, c))
    e["cfg_to_engine_node"] = lambda g, m, c: o.cfg_to_engine_node(g)
    e["cfg_to_text"] = lambda g, m, c: flow.cfg_to_text(g)
    e["cfg_to_mermaid"] = lambda g, m, c: flow.cfg_to_mermaid(g)
    return e


def frame_instance(k):
    from vp import gen
    from vp.checks.pipe import Hang, limit
    pr = gen.program(k)
    from sonolus.backend import place
    pre = place.preallocated_temp_block_places
    p0 = [(id(x), repr(x)) for x in pre[:64]] + [len(pre)]
    s0, keep = snapshot(pr.entry)
    ran = 0
    for name, f in entries().items():
        try:
            with limit(30):
                f(pr.entry, pr.mode, pr.callback)
            ran += 1
        except Hang:
            return f"{name} does not return", ran
        except Exception:  # noqa: BLE001
            pass
        s1, _ = snapshot(pr.entry)
        if s1 != s0:
            return f"{name} changed the graph it was given", ran
        if [(id(x), repr(x)) for x in pre[:64]] + [len(pre)] != p0:
            return f"{name} changed the preallocated places", ran
    return None, ran


def frames(lo, secs):
    import time
    t0 = time.time()
    bad, cnt, nt, k = [], 0, 0, lo
    while time.time() - t0 < secs and not bad:
        w, ran = frame_instance(k)
        cnt += 1
        nt += ran >= 6
        if w:
            from vp import gen
            from vp.checks.pipe import text
            bad.append({"key": "frame", "what": f"program {k}: {w}", "input": {"instance": k, "graph": text(gen.program(k).entry)}})
        k += 1
    return {"violations": bad, "bounded": {"name": "input graph unchanged", "evaluations": cnt, "distinct": nt, "samples": [f"program {lo}"], "bound": "generated graphs, every level and entry point"}}


def tasks(tier, seed):
    q = tier == "quick"
    ts = [Task("real", "consts", k, timeout=200) for k in ("int", "float", "bool", "hist-int", "hist-float", "hist-zero", "hist-bool", "hist-big")]
    ts += [Task("real", "values", timeout=200), Task("real", "equalities", seed, 6 if q else 60, timeout=300), Task("real", "histories", seed, 3000 if q else 60000, timeout=400)]
    ts += [Task("real", "frames", seed * 10 ** 6 + i * 10 ** 5, 12 if q else 200, timeout=400) for i in range(6)]
    return ts


def replay(o):
    """search the real code around the failed obligation"""
    if "IRConst(" in o["name"]:
        m = unmodel(o.get("model"))
        for x in list(m.values()):
            for w in HIST:
                for vs in ([w, x], [x, w], [x]):
                    r = history(vs)
                    if r:
                        return {"violations": [{"key": "history", "what": f"creating {vs}: {r}", "input": {"values": [repr(v) for v in vs]}}]}
        for a in HIST:
            for b in HIST:
                r = history([a, b])
                if r:
                    return {"violations": [{"key": "history", "what": f"creating {[a, b]}: {r}", "input": {"values": [repr(a), repr(b)]}}]}
    return {}
