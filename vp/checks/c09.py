"""C09: fused read-modify-write operations equal the statements they replace.

Per instance (a store of an arithmetic expression over a location, all place kinds, both pointed and
shifted forms, near misses that must not be fused) the obligation is: for every memory contents the emitted
tree makes the same ordered writes, runtime calls and draws as the statements of the graph."""
from vp.check import Task
from vp.checks import pipe
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["lower.fuse_rmw", "lower._fuse_scalar", "lower._fused_set_op", "lower._values_equal", "lower._places_equal", "lower._subtree_refs",
                  "midend._fuse_ptr_rmw", "midend._try_fuse_ptr", "midend._no_effect_between", "midend._fused_ptr_op", "emit._emit_fused_rmw",
                  "emit._shifted_fused_op", "interpret.Interpreter._set_rmw* (contract proved in C10)"],
    "trusted": ["z3 (floating-point, uninterpreted functions)", "vp/exe.py, vp/rtspec.py: semantics of graphs and of the read-modify-write functions"],
    "assumptions": ["finite initial memory contents without negative zero; *, / and remainders as uninterpreted functions when the exact query does not terminate",
                    "an index expression and the stored value are not both impure (the front end evaluates impure indices into temporaries first)",
                    "statement sequences are instances (directed and random), each proved for every memory contents; indices range over 0..11"],
    "rule": "stores x = x op e, x = e op x, near misses (other index, offset or block, interposed writes, draws or calls in the address or operand, result used twice) over all place kinds; non-trivial when a reference run exists",
    "deadline": {"quick": 300, "thorough": 850},
    "technique": "symbolic execution of statements and emitted tree over an arbitrary memory, equality of ordered writes discharged by z3",
    "level_note": "proved for every memory contents per statement sequence; sequences are enumerated and sampled",
}
OPS = ["Add", "Subtract", "Multiply", "Divide", "Mod", "Rem", "Power"]


def _mems(r, n=6):
    out = []
    for _ in range(n):
        m = {}
        for i in range(12):
            m[20, i] = r.choice([1.0, 2.0, 3.0, 0.5, -1.5, 7.0, 10.0, -4.0, 0.1, 100.0, 5.0])
            m[22, i] = float(r.randrange(4))
        m[40, 0], m[40, 1], m[40, 2], m[40, 3] = 20, r.randrange(5), r.choice([20, 21]), r.randrange(5)
        out.append(m)
    return out


def t_scalar(seed):
    r = random.Random(seed * 53 + 11)
    b = pipe.Build()
    sc = [b.t(f"v{i}") for i in range(3)]
    ar = b.t("arr", 4)
    ix = b.t("ix")
    pb, pi = b.t("pb"), b.t("pi")
    st = [b.set(b.at(v), b.get(20, i)) for i, v in enumerate(sc)]
    st += [b.set(b.at(ar, i), b.get(20, 4 + i)) for i in range(4)]
    st += [b.set(b.at(ix), b.get(22, 0)), b.set(b.at(pb), b.get(40, 0)), b.set(b.at(pi), b.get(40, 1))]
    uniq = [0]

    def idx():
        k = r.random()
        if k < 0.35:
            return b.get(ix)
        if k < 0.5:
            return b.get(22, r.randrange(2))
        if k < 0.6:
            return b.P("Add", b.get(ix), r.choice([0, 1]))
        if k < 0.68:
            return b.P("Multiply", b.get(ix), 2)
        if k < 0.76:
            uniq[0] += 1
            return b.I("RandomInteger", 0, 4)
        if k < 0.84:
            return b.P("Add", b.P("Multiply", b.get(ix), 2), b.get(22, 1))
        return r.randrange(3)

    def place():
        k = r.random()
        o = r.choice([0, 0, 1, 2])
        if k < 0.2:
            return ("r", 20, r.randrange(6), o)
        if k < 0.45:
            return ("d", 20, idx(), o)
        if k < 0.6:
            return ("p", (b.get(pb), b.get(40, 0))[r.random() < 0.4], (b.get(pi), b.get(40, 1), r.randrange(3))[r.randrange(3)], o)
        if k < 0.75:
            return ("t", r.choice(sc), 0, 0)
        if k < 0.85:
            return ("t", ar, r.randrange(4), 0)
        return ("t", ar, b.get(ix) if r.random() < 0.6 else b.get(22, 0), 0)

    def mk(p):
        return b.BP(p[1], p[2], p[3])

    def near(p):
        """same location, or nearly"""
        k = r.random()
        if k < 0.72:
            return p
        q = list(p)
        if p[0] == "t":
            if p[1] is ar:
                q[2] = r.randrange(4)
            else:
                q[1] = r.choice(sc)
            return tuple(q)
        j = r.randrange(3)
        if j == 0:
            q[3] = r.choice([0, 1, 2])
        elif j == 1:
            q[2] = idx() if p[0] != "r" else r.randrange(6)
        elif p[0] == "p":
            q[1] = r.choice([b.get(pb), b.get(40, 0), b.get(40, 2)])
        else:
            q[1] = r.choice([20, 20, 21])
        return tuple(q)

    def operand(p, d=0):
        k = r.random()
        if k < 0.2:
            return b.c(1)
        if k < 0.4:
            return b.c(r.choice([2, -1, 0.5, 3, 1.0, 1.5]))
        if k < 0.55:
            return b.get(r.choice(sc))
        if k < 0.65:
            return b.get(20, r.randrange(8))
        if k < 0.72:
            return b.ir.IRGet(mk(p))
        if k < 0.8 and not uniq[0]:
            return b.I("Spawn", r.randrange(3), b.get(r.choice(sc)))
        if k < 0.88 and d < 2:
            return b.P(r.choice(["Add", "Multiply", "Subtract"]), operand(p, d + 1), operand(p, d + 1))
        return b.P("Abs", b.get(20, r.randrange(8)))

    n = r.randint(1, 3)
    seen, temps = [], 0
    for j in range(n):
        p = place()
        q = near(p)
        temps += p[0] == "t"
        op = r.choice(OPS) if r.random() < 0.5 else r.choice(["Add", "Subtract"])
        g = b.ir.IRGet(mk(q))
        pre = None
        if r.random() < 0.25:
            t = b.t(f"g{j}")
            st.append(b.set(b.at(t), g))
            seen.append(t)
            g = b.get(t)
            k = r.random()
            if k < 0.3:
                st.append(b.set(mk(place()), operand(p)))
            elif k < 0.45:
                st.append(b.set(b.at(ix), b.get(22, 1)))
            elif k < 0.55:
                st.append(b.I("Spawn", 9, b.get(r.choice(sc))))
        w = operand(p)
        args = [g, w]
        if r.random() < 0.18:
            args.reverse()
        if r.random() < 0.08 and op in ("Add", "Multiply", "Subtract"):
            args.append(operand(p))
        e = b.P(op, *args)
        if op == "Power":
            e = b.P("Power", b.P("Abs", args[0]), b.c(2)) if r.random() < 0.4 else b.P("Power", args[0], b.c(r.choice([1, 2, 3])))
        if r.random() < 0.15:
            t = b.t(f"e{j}")
            st += [b.set(b.at(t), e), b.set(mk(p), b.get(t)), b.set(b.at(21, 8 + j), b.get(t))]
        else:
            st.append(b.set(mk(p), e))
    for i, v in enumerate(sc):
        st.append(b.set(b.at(23, i), b.get(v)))
    for i in range(4):
        st.append(b.set(b.at(23, 4 + i), b.get(ar, i)))
    st.append(b.set(b.at(23, 9), b.get(ix)))
    # the number of draws is compared unless a drawn value may be dead
    from vp import exe
    exe.World.log_random = not temps
    for i, t in enumerate(seen):
        st.insert(-8, b.set(b.at(23, 10 + i), b.get(t)))
    e = b.block(*st)
    if r.random() < 0.3:
        # inside a loop body run twice
        cnt = b.t("cnt")
        h = b.block(test=b.P("Less", b.get(cnt), 2))
        k0 = len(sc) + 4 + 3
        pre = b.block(*st[:k0], b.set(b.at(cnt), b.c(0)))
        body = b.block(*st[k0:-8], b.set(b.at(cnt), b.P("Add", b.get(cnt), 1)))
        end = b.block(*st[-8:])
        pre.connect_to(h)
        h.connect_to(end, 0)
        h.connect_to(body, None)
        body.connect_to(h)
        e = pre
    return pipe.Spec(e, _mems(r), [20, 21, 22, 23, 40], mem0={(40, 0): 20, (40, 2): 21}, label="store", pre=_pre)


def _pre(c):
    from vp.sym import SBool
    import z3
    from vp.sym import FP, fpv
    for nm in ("m22_0", "m22_1", "m22_2", "m22_3", "m40_1", "m40_3"):
        v = FP.var(nm)
        c.assume(z3.Or(*[v.t == fpv(float(k)) for k in range(3)]))


def t_pointer(seed):
    """op-level pointed and shifted accesses"""
    r = random.Random(seed * 59 + 17)
    b = pipe.Build()
    v, w = b.t("v"), b.t("w")
    st = [b.set(b.at(v), b.get(20, 8)), b.set(b.at(w), b.get(20, 9))]
    for j in range(r.randint(1, 2)):
        shifted = r.random() < 0.5
        form = "Shifted" if shifted else "Pointed"

        def addr():
            if shifted:
                return [b.c(20), b.c(r.choice([0, 1])), r.choice([b.get(22, 0), b.get(22, 1), b.c(1)]), b.c(r.choice([1, 2]))]
            return [b.c(40), b.c(r.choice([0, 2])), r.choice([b.c(0), b.c(1), b.get(22, 0)])]

        a = addr()
        a2 = a if r.random() < 0.75 else addr()
        g = b.I("Get" + form, *a2)
        if r.random() < 0.3:
            t = b.t(f"t{j}")
            st.append(b.set(b.at(t), g))
            g = b.get(t)
            k = r.random()
            if k < 0.25:
                st.append(b.set(b.at(20, r.randrange(4)), b.get(v)))
            elif k < 0.4:
                st.append(b.I("Spawn", 1, b.get(v)))
            elif k < 0.5:
                st.append(b.set(b.at(40, 1), b.get(22, 2)))
            elif k < 0.6:
                st.append(b.set(b.at(21, 3), b.get(t)))
        x = r.choice([b.c(1), b.c(2), b.get(v), b.I("Spawn", 2, b.get(w)), b.P("Add", b.get(v), b.get(w)), b.I("Get" + form, *a)])
        args = [g, x]
        if r.random() < 0.15:
            args.reverse()
        op = r.choice(OPS[:-1]) if r.random() < 0.5 else r.choice(["Add", "Subtract"])
        st.append(b.I("Set" + form, *a, b.P(op, *args)))
        if r.random() < 0.3:
            st.append(b.set(b.at(21, 5), b.get(20, 0)))
    st.append(b.set(b.at(21, 6), b.P("Add", b.get(v), b.get(w))))
    return pipe.Spec(b.block(*st), _mems(r), [20, 21, 22, 40], mem0={(40, 0): 20, (40, 2): 21}, label="pointed", pre=_pre)


T = {"store": t_scalar, "pointer": t_pointer}


def tasks(tier, seed):
    q = tier == "quick"
    ts = []
    for kind, m in (("store", 6), ("pointer", 2)):
        for i in range(m):
            ts.append(Task("real", "run", kind, seed * 100000 + i, m, 35 if q else 400, timeout=700))
            ts.append(Task("real", "conc", kind, seed * 100000 + 50000000 + i, m, 15 if q else 200, timeout=700))
    return ts


def run(kind, lo, step, secs):
    return pipe.run_templates(None, kind, T[kind], lo, 10**6, secs, levels=("standard",), step=step, budget=2.0)


def conc(kind, lo, step, secs):
    return pipe.run_templates(None, kind, T[kind], lo, 10**6, secs, levels=(), step=step)


def replay(o):
    return pipe.replay_templates(o, T)
