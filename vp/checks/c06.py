"""C06: temporaries that are live together never share memory.

Contracts
  _pack(func, L, off)   ensures  t, u live after the same store  =>  [off t, off t + size t) and [off u, off u + size u) disjoint,
                                 0 <= off t, off t + size t <= 4096; raises only when no free run is left
  _bump(func, off)      ensures  the same for every pair;   _bump_fits = (sum of sizes <= 4096)
  allocate(graph)       ensures  for every memory the graph with temporaries placed has the effects of the graph
                                 (an overlap of two needed values changes an effect)"""
import itertools

from vp.check import Task
from vp.checks import pipe
from vp.checks.common import *  # noqa: F403

META = {
    "level": "translation_validation",
    "functions": ["lower._bump", "lower._bump_fits", "lower._pack", "lower._dead_store_elim", "lower._rewrite_places", "lower.allocate_func",
                  "analysis.compute_liveness"],
    "trusted": ["z3", "vp/exe.py, vp/rtspec.py: semantics of graphs and trees", "Cython translation (vp/pyx2py.py) for the allocator contracts"],
    "assumptions": ["reads of a temporary before any write are outside the property", "dynamic array indices are in range"],
    "rule": "structured programs over 3-14 temporaries and arrays of 2-6 slots (loops, branches, partial array writes), allocator inputs enumerated; non-trivial when a reference run exists",
    "deadline": {"quick": 300, "thorough": 850},
    "technique": "contracts of the allocators discharged over symbolic sizes and enumerated interference; symbolic execution of graph and allocated program, equality discharged by z3",
    "level_note": "each allocated program is validated for every memory on the explored paths; allocator contracts for all sizes up to five temporaries (bump) and enumerated liveness (pack)",
}


class Gen:
    """structured programs whose temporaries are assigned before they are read"""

    def __init__(self, k):
        self.r = random.Random(k)
        self.b = b = pipe.Build()
        r = self.r
        self.sc = [b.t(f"s{i}") for i in range(r.randint(2, 7))]
        self.ar = [b.t(f"a{i}", r.randint(2, 6) if r.random() < 0.9 else r.choice([100, 900])) for i in range(r.randint(0, 4))]
        self.init = set()       # (name, slot)
        self.out = itertools.count()
        self.cur = self.entry = b.block()
        self.cnt = 0

    def read(self):
        r, b = self.r, self.b
        c = sorted((x for x in self.init if x[1] < 8), key=str)
        k = r.random()
        if k < 0.15 or not c:
            return b.get(20, r.randrange(6)) if r.random() < 0.8 else b.c(r.randint(0, 9))
        name, slot = r.choice(c)
        for t in self.sc + self.ar:
            if t.name == name:
                if t.size > 1 and r.random() < 0.35 and all((name, i) in self.init for i in range(min(t.size, 3))) and t.size >= 3:
                    return b.get(t, b.get(22, r.randrange(2)))
                return b.get(t, slot)
        return b.c(0)

    def value(self, d=1):
        r, b = self.r, self.b
        k = r.random()
        if k < 0.45 or d == 0:
            return self.read()
        if k < 0.9:
            return b.P(r.choice(["Add", "Subtract", "Max", "Add"]), self.value(d - 1), self.value(d - 1))
        return b.I("Spawn", r.randrange(3), self.value(0))

    def add(self, s):
        self.cur.statements.append(s)

    def stmt(self, d):
        r, b = self.r, self.b
        k = r.random()
        if k < 0.4:
            t = r.choice(self.sc)
            self.add(b.set(b.at(t), self.value()))
            self.init.add((t.name, 0))
        elif k < 0.62 and self.ar:
            t = r.choice(self.ar)
            if r.random() < 0.25 and t.size >= 3:
                self.add(b.set(b.at(t, b.get(22, r.randrange(2))), self.value()))
            else:
                i = r.randrange(min(t.size, 6))
                if r.random() < 0.2:
                    i = t.size - 1
                self.add(b.set(b.at(t, i), self.value()))
                self.init.add((t.name, i))
        elif k < 0.7 and self.ar:
            t = r.choice(self.ar)
            for i in range(min(t.size, 6)):
                self.add(b.set(b.at(t, i), self.value(0)))
                self.init.add((t.name, i))
        elif k < 0.85 or d == 0:
            self.add(b.set(b.at(21, next(self.out)), self.value()))
        elif k < 0.94:
            test = b.P("Less", self.read(), b.get(20, r.randrange(6)))
            head = self.cur
            join = b.block()
            start = set(self.init)
            outs = []
            for c in (0, None):
                blk = b.block()
                head.connect_to(blk, c)
                self.cur, self.init = blk, set(start)
                if c is None or r.random() < 0.7:
                    self.body(d - 1)
                self.cur.connect_to(join)
                outs.append(self.init)
            head.test = test
            self.init = outs[0] & outs[1]
            self.cur = join
        else:
            self.cnt += 1
            i = b.t(f"i{self.cnt}")
            self.add(b.set(b.at(i), b.c(0)))
            head, body, after = b.block(), b.block(), b.block()
            self.cur.connect_to(head)
            head.test = b.P("Less", b.get(i), self.r.randint(1, 3))
            head.connect_to(after, 0)
            head.connect_to(body, None)
            start = set(self.init)
            self.cur = body
            self.body(d - 1)
            self.add(b.set(b.at(i), b.P("Add", b.get(i), 1)))
            self.cur.connect_to(head)
            self.init = start
            self.cur = after

    def body(self, d):
        for _ in range(self.r.randint(1, 6)):
            self.stmt(d)

    def build(self):
        for _ in range(self.r.randint(3, 9)):
            self.stmt(2)
        for _ in range(self.r.randint(0, 5)):
            self.add(self.b.set(self.b.at(21, next(self.out)), self.read()))
        return self.entry


def _pre(c):
    import z3
    from vp.sym import SReal
    for nm in ("m22_0", "m22_1"):
        x = SReal.var(nm)
        c.assume(z3.Or(*[x.t == q for q in range(3)]))


def _mems(r, n=6):
    return [dict({(20, i): float(r.choice([r.randint(-9, 9), r.uniform(-100, 100)])) for i in range(6)}, **{}) | {(22, i): float(r.randrange(3)) for i in range(2)} for _ in range(n)]


def t_live(k):
    g = Gen(k * 97 + 13)
    return pipe.Spec(g.build(), _mems(g.r), [20, 21, 22], label=f"{len(g.sc)} scalars, arrays {[t.size for t in g.ar]}", real=True, pre=_pre, steps=25)


def t_capacity(k):
    """sizes around the capacity: a program either runs correctly or is rejected"""
    r = random.Random(k * 101 + 5)
    b = pipe.Build()
    n = r.randint(1, 5)
    szs = [r.choice([1, 2, 100, 1000, 1365, 2047, 2048, 2049, 4000, 4094, 4095, 4096, 4097]) for _ in range(n)]
    if r.random() < 0.5:        # exactly at or one over the limit
        rest = 4096 - sum(szs[:-1]) + r.choice([0, 0, 1, -1])
        if rest >= 1:
            szs[-1] = rest
    ts = [b.t(f"a{i}", s) for i, s in enumerate(szs)]
    sep = r.random() < 0.4          # lifetimes one after another, or all together
    st, tail = [], []
    for i, t in enumerate(ts):
        w = [b.set(b.at(t, j), b.c(100 * i + j % 7 + 1)) for j in sorted({0, t.size // 2, t.size - 1})]
        rd = [b.set(b.at(21, 10 * i + q), b.get(t, j)) for q, j in enumerate(sorted({0, t.size // 2, t.size - 1}))]
        st += w
        if sep:
            st += rd
        else:
            tail += rd
    return b.block(*st, *tail), szs, sep


T = {"live": t_live}
LEV = ("alloc-bump", "alloc-packing", "alloc-try_bump", "standard")


def tasks(tier, seed):
    q = tier == "quick"
    ts = [Task("sym", "bump", timeout=200)]
    ts += [Task("sym", "pack", i, 6, 40 if q else 400, timeout=600) for i in range(6)]
    ts += [Task("real", "run", "live", seed * 100000 + i, 6, 40 if q else 400, timeout=700) for i in range(6)]
    ts += [Task("real", "conc", "live", seed * 100000 + 50000000 + i, 6, 15 if q else 200, timeout=700) for i in range(6)]
    ts += [Task("real", "capacity", seed * 1000, 8 if q else 100, timeout=300)]
    return ts


def run(kind, lo, step, secs):
    return pipe.run_templates(None, kind, T[kind], lo, 10**6, secs, levels=("alloc-packing",), step=step, budget=2.0, conc_levels=LEV)


def conc(kind, lo, step, secs):
    return pipe.run_templates(None, kind, T[kind], lo, 10**6, secs, levels=(), step=step, conc_levels=LEV)


def capacity(lo, secs):
    import time
    t0 = time.time()
    bad, n, ok = [], 0, 0
    k = lo
    while time.time() - t0 < secs and not bad:
        e, szs, sep = t_capacity(k)
        rs = pipe.refs(e, [{}])
        for lev in LEV:
            must = sum(szs) <= 4096 if "bump" in lev or not sep else max(szs) <= 4096
            mustnot = max(szs) > 4096 or (lev == "alloc-bump" or not sep) and sum(szs) > 4096
            node, err = pipe.compile_at(e, lev)
            n += 1
            if node is None:
                if must or "ValueError" not in err:
                    bad.append({"key": f"capacity:{lev}", "what": f"temporaries of sizes {szs} ({'one after another' if sep else 'together'}) at {lev}: {err}", "input": {"instance": k, "sizes": szs}})
                continue
            ok += 1
            if mustnot and lev != "standard":
                bad.append({"key": f"capacity:{lev}", "what": f"temporaries of sizes {szs} needed together compile at {lev}", "input": {"instance": k, "sizes": szs}})
            for _, what in pipe.compare(e, rs, (lev,)):
                bad.append({"key": f"capacity:{lev}", "what": f"sizes {szs} at {lev}: {what}"[:600], "input": {"instance": k, "sizes": szs}})
        k += 1
    return {"violations": bad[:3], "bounded": {"name": "capacity", "evaluations": n, "distinct": ok, "programs": k - lo, "samples": [f"sizes {szs}"], "bound": "up to five arrays around 4096 slots"}}


# ---------------------------------------------------------------- the allocators
class _T:
    def __init__(self, size):
        self.size = size


class _F:
    def __init__(self, sizes):
        self.temps = [_T(s) for s in sizes]
        self.n_temps = len(sizes)


def bump():
    from vp.sym import Ctx, SInt, s_int  # noqa: F401
    from sonolus.backend._opt import lower
    import z3
    cs = []
    for n in range(6):
        c = Ctx(f"bump{n}", max_paths=3000, budget_s=40)

        def body(n=n, c=c):
            sz = [SInt.var(f"size{i}") for i in range(n)]
            for s in sz:
                c.assume(z3.And(s.t >= 0, s.t < 2**31))
            f = _F(sz)
            off = [-2] * n
            total = z3.Sum([s.t for s in sz]) if n else z3.IntVal(0)
            fits = lower._bump_fits(f)
            from vp.sym import SBool
            ft = fits.t if isinstance(fits, SBool) else z3.BoolVal(bool(fits))
            c.prove("fits", ft == (total <= 4096))
            try:
                lower._bump(f, off)
            except ValueError:
                c.cover("rejected")
                c.prove("rejects-only-too-large", total > 4096)
                return
            c.cover("placed")
            g = [total <= 4096]
            o = [q.t if isinstance(q, SInt) else z3.IntVal(q) for q in off]
            for i in range(n):
                g.append(z3.Implies(sz[i].t > 0, z3.And(o[i] >= 0, o[i] + sz[i].t <= 4096)))
                for j in range(i):
                    g.append(z3.Implies(z3.And(sz[i].t > 0, sz[j].t > 0), z3.Or(o[i] + sz[i].t <= o[j], o[j] + sz[j].t <= o[i])))
            c.prove("disjoint-in-capacity", z3.And(*g))
        c.run(body)
        cs.append(pack_(c))
    return merge(*cs)


def pack_(c):
    from vp.checks.common import pack as p
    return p(c)


def pack(i, m, secs):
    """every liveness structure: sets of live temporaries at up to three stores, over up to four temporaries"""
    import time
    from sonolus.backend._opt import lower
    OPX_SET = lower.OPX_SET
    t0 = time.time()
    bad, n, samples = [], 0, []
    names = [[1, 1], [1, 2], [2, 1, 3], [1, 1, 1], [0, 2, 1], [3, 1, 2, 1], [1, 2, 2, 1], [2, 2, 0, 3], [2048, 2048, 1], [4095, 1, 1], [4096, 1], [4097, 1], [2000, 2000, 97], [1, 1, 1, 1, 1], [3, 2, 1, 2, 3]]
    jobs = []
    for sizes in names:
        k = len(sizes)
        subs = list(range(1 << k))
        r = 3 if k <= 3 else 2 if k == 4 else 2
        jobs += [(sizes, s) for s in itertools.combinations(subs, r)]
    jobs += [([random.Random(q).randint(0, 4) for _ in range(66 + q % 4)], None) for q in range(40)]
    random.Random(3).shuffle(jobs)
    done = 0
    for sizes, sets in jobs[i::m]:
        if time.time() - t0 > secs:
            break
        k = len(sizes)
        if sets is None:
            r = random.Random(str(sizes))
            sets = [sum(1 << b for b in range(k) if r.random() < 0.3) for _ in range(6)]
        done += 1
        off, err = _run_pack(lower, OPX_SET, sizes, sets)
        n += 1
        why = _judge_pack(sizes, sets, off, err)
        if why:
            bad.append({"key": "pack", "what": f"sizes {sizes}, live sets {[bin(s) for s in sets]}: {why}", "input": {"sizes": sizes, "sets": sets, "offsets": off, "error": err}})
            break
    return {"violations": bad, "bounded": {"name": "interference packing", "evaluations": n, "distinct": n, "samples": [str(jobs[i][0])],
                                           "bound": f"{len(jobs)} liveness structures over up to five temporaries, and 66-69 temporaries with random sets"}}


def _run_pack(lower, OPX_SET, sizes, sets):
    class I:
        def __init__(self):
            self.op = OPX_SET
    k = len(sizes)
    nw = (k + 63) >> 6
    f = _F(sizes)
    f.instrs = [I() for _ in sets]
    f.n_instrs = len(sets)
    L = type("L", (), {})()
    L.n_words = nw
    L.root_slot = list(range(len(sets)))
    from vp import cyrt
    p = cyrt._castp(cyrt._c_calloc(max(1, len(sets) * nw), 8), "u64", 8)
    for q, s in enumerate(sets):
        for w in range(nw):
            p[q * nw + w] = (s >> (64 * w)) & (2**64 - 1)
    L.root_live = p
    off = [-2] * k
    try:
        lower._pack(f, L, off)
    except ValueError as e:
        return off, str(e)
    return off, None


def _judge_pack(sizes, sets, off, err):
    k = len(sizes)
    pairs = {(a, b) for s in sets for a in range(k) for b in range(a) if s >> a & 1 and s >> b & 1 and sizes[a] and sizes[b]}
    if err:
        if sum(sizes) <= 4096:
            return f"rejected although everything fits: {err}"
        return None
    for a in range(k):
        if sizes[a] and not (off[a] >= 0 and off[a] + sizes[a] <= 4096):
            return f"temporary {a} is placed at {off[a]}"
    for a, b in pairs:
        if not (off[a] + sizes[a] <= off[b] or off[b] + sizes[b] <= off[a]):
            return f"temporaries {a} and {b} overlap: {off}"
    return None


def replay(o):
    return pipe.replay_templates(o, T)
